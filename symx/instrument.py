"""Loads the real source through an AST rewrite that routes primitive operations to the models."""
import ast
import importlib.abc
import importlib.machinery
import importlib.util
import inspect
import operator
import os
import sys
import types

from . import models as M
from .engine import Engine, Signal
from .values import StrBase, SymBool, mkbool, not_

REPO = os.environ.get("SYMX_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Sx:
    """The runtime object visible as `__sx__` in instrumented modules."""

    Signal = Signal
    StrBase = StrBase
    call = staticmethod(M.call)
    getitem = staticmethod(M.getitem)
    setitem = staticmethod(M.setitem)
    delitem = staticmethod(M.delitem)
    mod = staticmethod(M.binop_mod)
    fstring = staticmethod(M.fstring)

    @staticmethod
    def in_(x, c):
        return M.contains(c, x)

    @staticmethod
    def notin(x, c):
        r = M.contains(c, x)
        return not_(r)

    @staticmethod
    def is_(x, const):
        if type(x) is SymBool:
            return x if const else not_(x)
        return x is const

    @staticmethod
    def isnot(x, const):
        return not_(Sx.is_(x, const))

    @staticmethod
    def aug(o, k, op, v):
        M.setitem(o, k, op(M.getitem(o, k), v))

    @staticmethod
    def augmod(a, b):
        return M.binop_mod(a, b)

    @staticmethod
    def tick():
        e = Engine.current
        if e is not None:
            e.tick()

    @staticmethod
    def enter(name):
        e = Engine.current
        if e is not None:
            h = e.func_hits
            h[name] = h.get(name, 0) + 1


for _n in ("iadd", "isub", "imul", "itruediv", "ifloordiv", "ipow", "iand", "ior", "ixor",
           "ilshift", "irshift", "imatmul"):
    setattr(Sx, _n, staticmethod(getattr(operator, _n)))
SX = Sx()

_AUG = {ast.Add: "iadd", ast.Sub: "isub", ast.Mult: "imul", ast.Div: "itruediv",
        ast.FloorDiv: "ifloordiv", ast.Mod: "augmod", ast.Pow: "ipow", ast.BitAnd: "iand",
        ast.BitOr: "ior", ast.BitXor: "ixor", ast.LShift: "ilshift", ast.RShift: "irshift",
        ast.MatMult: "imatmul"}
_NOCALL = {"super", "locals", "globals", "vars", "dir", "eval", "exec", "__import__"}


def _sx(name, *args):
    return ast.Call(
        func=ast.Attribute(value=ast.Name(id="__sx__", ctx=ast.Load()), attr=name, ctx=ast.Load()),
        args=list(args), keywords=[])


class Rewriter(ast.NodeTransformer):
    def __init__(self, modname, count=True):
        self.modname = modname
        self.stack = []
        self.count = count

    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Name) and f.id in _NOCALL:
            return node
        new = _sx("call", f, *node.args)
        new.keywords = node.keywords
        return ast.copy_location(new, node)

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load) and not _plain_index(node.slice):
            return ast.copy_location(_sx("getitem", node.value, node.slice), node)
        return node

    def visit_Assign(self, node):
        self.generic_visit(node)
        t = node.targets
        if len(t) == 1 and isinstance(t[0], ast.Subscript) and not _plain_index(t[0].slice):
            # value first, then container, then key (Python's order)
            tmp = ast.Name(id="__sx_v", ctx=ast.Store())
            return [
                ast.copy_location(ast.Assign(targets=[tmp], value=node.value), node),
                ast.copy_location(ast.Expr(_sx("setitem", t[0].value, t[0].slice, ast.Name(
                    id="__sx_v", ctx=ast.Load()))), node),
            ]
        return node

    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        t = node.target
        op = _AUG[type(node.op)]
        if isinstance(t, ast.Subscript) and not _plain_index(t.slice):
            fn = ast.Attribute(value=ast.Name(id="__sx__", ctx=ast.Load()), attr=op, ctx=ast.Load())
            return ast.copy_location(ast.Expr(_sx("aug", t.value, t.slice, fn, node.value)), node)
        if isinstance(node.op, ast.Mod) and isinstance(t, ast.Name):
            return ast.copy_location(ast.Assign(targets=[t], value=_sx(
                "mod", ast.Name(id=t.id, ctx=ast.Load()), node.value)), node)
        return node

    def visit_Delete(self, node):
        self.generic_visit(node)
        t = node.targets
        if len(t) == 1 and isinstance(t[0], ast.Subscript) and not _plain_index(t[0].slice):
            return ast.copy_location(ast.Expr(_sx("delitem", t[0].value, t[0].slice)), node)
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1:
            op, c = node.ops[0], node.comparators[0]
            if isinstance(op, ast.In):
                return ast.copy_location(_sx("in_", node.left, c), node)
            if isinstance(op, ast.NotIn):
                return ast.copy_location(_sx("notin", node.left, c), node)
            if isinstance(op, (ast.Is, ast.IsNot)) and isinstance(c, ast.Constant) and (
                    c.value is True or c.value is False):
                return ast.copy_location(
                    _sx("is_" if isinstance(op, ast.Is) else "isnot", node.left, c), node)
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return ast.copy_location(_sx("mod", node.left, node.right), node)
        return node

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                spec = self.visit(v.format_spec) if v.format_spec else ast.Constant(value="")
                conv = ast.Constant(value=chr(v.conversion) if v.conversion != -1 else None)
                parts.append(ast.Tuple(elts=[self.visit(v.value), conv, spec], ctx=ast.Load()))
        return ast.copy_location(_sx("fstring", ast.List(elts=parts, ctx=ast.Load())), node)

    def visit_Try(self, node):
        self.generic_visit(node)
        out = []
        for h in node.handlers:
            if h.type is None or any(
                    isinstance(n, ast.Name) and n.id == "BaseException" for n in ast.walk(h.type)):
                sig = ast.Attribute(value=ast.Name(id="__sx__", ctx=ast.Load()), attr="Signal",
                                    ctx=ast.Load())
                out.append(ast.copy_location(
                    ast.ExceptHandler(type=sig, name=None, body=[ast.Raise()]), h))
            out.append(h)
        node.handlers = out
        return node

    def _loop(self, node):
        self.generic_visit(node)
        node.body.insert(0, ast.copy_location(ast.Expr(_sx("tick")), node.body[0]))
        return node

    visit_While = _loop
    visit_For = _loop

    def _func(self, node):
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        a = node.args
        a.defaults = [self.visit(d) for d in a.defaults]
        a.kw_defaults = [d and self.visit(d) for d in a.kw_defaults]
        for x in a.posonlyargs + a.args + a.kwonlyargs + [a.vararg, a.kwarg]:
            if x is not None:
                x.annotation = None
        node.returns = None
        self.stack.append(node.name)
        qual = "%s:%s" % (self.modname, ".".join(self.stack))
        node.body = [y for x in node.body for y in _aslist(self.visit(x))]
        self.stack.pop()
        if self.count:
            i = 1 if isinstance(node.body[0], ast.Expr) and isinstance(
                node.body[0].value, ast.Constant) else 0
            at = node.body[min(i, len(node.body) - 1)]
            node.body.insert(i, ast.copy_location(
                ast.Expr(_sx("enter", ast.Constant(value=qual))), at))
        return node

    visit_FunctionDef = _func
    visit_AsyncFunctionDef = _func

    def visit_ClassDef(self, node):
        node.bases = [self.visit(b) for b in node.bases]
        if len(node.bases) == 1 and isinstance(node.bases[0], ast.Name) and node.bases[0].id == "str":
            node.bases[0] = ast.copy_location(ast.Attribute(
                value=ast.Name(id="__sx__", ctx=ast.Load()), attr="StrBase", ctx=ast.Load()), node.bases[0])
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        self.stack.append(node.name)
        node.body = [y for x in node.body for y in _aslist(self.visit(x))]
        self.stack.pop()
        return node


def _aslist(x):
    return x if isinstance(x, list) else [] if x is None else [x]


def _plain_index(s):
    if isinstance(s, ast.Slice):
        return True
    if isinstance(s, ast.Tuple):
        return any(isinstance(e, (ast.Slice, ast.Starred)) for e in s.elts)
    if isinstance(s, ast.UnaryOp):
        s = s.operand
    return isinstance(s, ast.Constant) and not isinstance(s.value, bool)


def compile_instrumented(source, filename, modname, count=True):
    tree = ast.parse(source, filename)
    rw = Rewriter(modname, count)
    tree = rw.visit(tree)
    # `from __future__` must stay first: nothing is inserted at module level
    ast.fix_missing_locations(tree)
    return compile(tree, filename, "exec", dont_inherit=True)


class Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        return compile_instrumented(self.get_data(path), path, fullname)

    def exec_module(self, module):
        module.__dict__["__sx__"] = SX
        exec(self.get_code(module.__name__), module.__dict__)


class PlainFinder(importlib.abc.MetaPathFinder):
    """pandalone from REPO whatever is installed."""

    loader = importlib.machinery.SourceFileLoader

    def find_spec(self, fullname, path=None, target=None):
        if fullname != "pandalone" and not fullname.startswith("pandalone."):
            return None
        base = os.path.join(REPO, *fullname.split("."))
        pk = os.path.join(base, "__init__.py")
        if os.path.exists(pk):
            return importlib.util.spec_from_file_location(
                fullname, pk, loader=self.loader(fullname, pk), submodule_search_locations=[base])
        if os.path.exists(base + ".py"):
            return importlib.util.spec_from_file_location(
                fullname, base + ".py", loader=self.loader(fullname, base + ".py"))
        return None


INSTRUMENTED_LIBS = {"jsonschema"}  # executed symbolically as a whole


class HarnessLoader(Loader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        return compile_instrumented(self.get_data(path), path, fullname, count=False)


class SymFinder(PlainFinder):
    loader = Loader

    def find_spec(self, fullname, path=None, target=None):
        if fullname.startswith("harness.h_"):  # functions shared among the checks
            p = os.path.join(VERIF, *fullname.split(".")) + ".py"
            return importlib.util.spec_from_file_location(fullname, p, loader=HarnessLoader(fullname, p))
        if fullname.split(".")[0] in INSTRUMENTED_LIBS:
            spec = importlib.machinery.PathFinder.find_spec(fullname, path, target)
            if spec is not None and type(spec.loader) is importlib.machinery.SourceFileLoader:
                spec.loader = HarnessLoader(fullname, spec.origin)
            return spec
        return super(SymFinder, self).find_spec(fullname, path, target)


def install(symbolic=True):
    sys.dont_write_bytecode = True
    sys.meta_path.insert(0, SymFinder() if symbolic else PlainFinder())


def load_file(path, modname, symbolic=True):
    """Import a harness file (instrumented when symbolic)."""
    with open(path) as f:
        src = f.read()
    mod = types.ModuleType(modname)
    mod.__file__ = path
    sys.modules[modname] = mod
    if symbolic:
        mod.__dict__["__sx__"] = SX
        code = compile_instrumented(src, path, modname, count=False)
    else:
        code = compile(src, path, "exec")
    exec(code, mod.__dict__)
    return mod


# ------------------------------------------------------------------ twins of library functions
TWIN_MODULES = {"posixpath", "genericpath", "ntpath", "urllib.parse", "urllib.request",
                "nturl2path", "textwrap", "toolz", "xlrd", "glob", "fnmatch", "inspect_none",
                "collections", "_collections_abc", "heapq", "bisect", "shlex", "json",
                "keyword", "numbers", "string", "contextlib", "operator"}
_twin_mods = {}
_twin_cache = {}


def twin(f):
    f = getattr(f, "__wrapped__", f) if not isinstance(f, types.FunctionType) else f
    r = _twin_cache.get(f, 0)
    if r != 0:
        return r
    r = None
    name = f.__module__ or ""
    if (name in TWIN_MODULES or name.split(".")[0] in TWIN_MODULES) and "<locals>" not in \
            f.__qualname__:
        m = _twin_mod(name)
        o = m
        try:
            for p in f.__qualname__.split("."):
                o = inspect.getattr_static(o, p) if isinstance(o, type) else getattr(o, p)
        except AttributeError:
            o = None
        if isinstance(o, (staticmethod, classmethod)):
            o = o.__func__
        if type(o) is M.LruType:
            o = o.__wrapped__
        r = o if isinstance(o, types.FunctionType) else None
    _twin_cache[f] = r
    return r


def _twin_mod(name):
    m = _twin_mods.get(name)
    if m is None:
        real = sys.modules[name]
        with open(real.__file__, "rb") as fh:
            src = fh.read()
        m = types.ModuleType(name)
        m.__dict__.update({k: v for k, v in real.__dict__.items() if k.startswith("__")})
        m.__dict__["__sx__"] = SX
        _twin_mods[name] = m
        exec(compile_instrumented(src, real.__file__, name), m.__dict__)
    return m


M.TWINS = twin
