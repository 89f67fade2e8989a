"""Models of the C or byte-level parts of the path and URL libraries, for symbolic texts."""
import ast
import os
import posix
import posixpath
import types
import urllib.parse

from . import instrument
from . import models as M
from . import values as V
from .engine import simplify, z3
from .values import SymInt, lift, mkstr

_HEX = "0123456789abcdefABCDEF"


def _fspath(p):
    return p if type(p) in V.SYM else os.fspath(p)


M.FUNC_MODELS[os.fspath] = _fspath


def _normpath_model():
    """posixpath keeps a Python version of its C function: run that one."""
    with open(posixpath.__file__) as f:
        tree = ast.parse(f.read())
    for node in tree.body:
        if isinstance(node, ast.Try):
            for h in node.handlers:
                for d in h.body:
                    if isinstance(d, ast.FunctionDef) and d.name == "normpath":
                        m = types.ModuleType("posixpath")
                        m.__dict__.update(posixpath.__dict__)
                        m.__dict__["__sx__"] = instrument.SX
                        src = ast.unparse(d)
                        exec(instrument.compile_instrumented(src, posixpath.__file__, "posixpath", count=False),
                             m.__dict__)
                        return m.normpath
    return None


_norm = _normpath_model() if hasattr(posix, "_path_normpath") else None
if _norm:
    M.FUNC_MODELS[posix._path_normpath] = _norm


def _hexchar(d):
    """Code of the upper-case hexadecimal digit d."""
    if isinstance(d, int):
        return ord("%X" % d)
    return z3.If(d < 10, d + 48, d + 55)


_SAFE = frozenset("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789_.-~")


def quote(string, safe="/", encoding=None, errors=None):
    s = lift(string)
    if s is None or encoding not in (None, "utf-8"):
        return urllib.parse.quote(M.conc_deep(string), safe, encoding, errors)
    ok = tuple(sorted(map(ord, _SAFE | set(M.conc(safe)))))
    out = []
    for c in s.cs:
        if M._tc(V._in_codes(c, ok)):
            out.append(c)
        elif isinstance(c, int):
            out += map(ord, urllib.parse.quote(chr(c), safe))
        elif M._tc(c < 128):
            out += [37, _hexchar(c / 16), _hexchar(c % 16)]
        else:
            out += map(ord, urllib.parse.quote(M.conc(mkstr([c])), safe))
    return mkstr(out)


_HEXCODES = tuple(sorted(map(ord, _HEX)))


def _digit(c):
    if isinstance(c, int):
        return int(chr(c), 16)
    return z3.If(c < 58, c - 48, z3.If(c < 71, c - 55, c - 87))


def unquote(string, encoding="utf-8", errors="replace"):
    s = lift(string)
    if s is None:
        return urllib.parse.unquote(M.conc_deep(string), encoding, errors)
    cs = list(s.cs)
    out = []
    i = 0
    bytes_ = []

    def flush():
        if bytes_:
            out.extend(map(ord, bytes(bytes_).decode(encoding, errors)))
            del bytes_[:]

    while i < len(cs):
        c = cs[i]
        if (M._tc(V._in_codes(c, (37,))) and i + 2 < len(cs) and M._tc(V._in_codes(cs[i + 1], _HEXCODES))
                and M._tc(V._in_codes(cs[i + 2], _HEXCODES))):
            b = _digit(cs[i + 1]) * 16 + _digit(cs[i + 2])
            i += 3
            if isinstance(b, int):
                small = b < 128
            else:
                small = M._tc(b < 128)
            if small:
                flush()
                out.append(b if isinstance(b, int) else simplify(b))
            else:
                bytes_.append(b if isinstance(b, int) else M.conc(SymInt(b)))
        else:
            flush()
            out.append(c)
            i += 1
    flush()
    return mkstr(out)


M.FUNC_MODELS[urllib.parse.quote] = quote
M.FUNC_MODELS[urllib.parse.unquote] = unquote
