"""Models of builtins / C functions for symbolic arguments, and the call dispatcher."""
import builtins
import copy
import functools
import itertools
import operator
import re
import sys
import types

from . import regex as R
from .engine import EngineError, PathAbort, Signal, simplify, z3
from .values import (
    SSTR, SYM, StrBase, SymBool, SymInt, SymStr, and_all, conc, conc_deep, cur, has_sym, int_to_str, lift,
    mkbool, mkint, mkstr, not_, opaque, or_any, piecewise, str_to_int, _tc,
)

FunctionType = types.FunctionType
MethodType = types.MethodType
BuiltinType = types.BuiltinFunctionType
MethodDescr = type(str.lower)
WrapperType = type("".__add__)
CMethodType = type(re.compile("").match)  # C methods that also receive their defining class
LruType = functools._lru_cache_wrapper

_MISSING = object()


# ------------------------------------------------------------------ formatting
def to_str(x):
    t = type(x)
    if t in SSTR:
        if t is not SymStr:
            return call(t.__str__, x) if t.__str__ is not SymStr.__str__ else mkstr(x.cs)
        return x
    if t is SymInt:
        return int_to_str(x)
    if t is SymBool:
        return "True" if x else "False"
    if t in (list, tuple, dict) and has_sym(x) or isinstance(x, tuple) and has_sym(x):
        c = type(x).__str__
        if t in (list, tuple, dict):
            return to_repr(x)
        if isinstance(c, FunctionType):
            return c(x)
        return to_repr(x)
    if isinstance(x, BaseException) and has_sym(x.args):
        if len(x.args) == 1 and not isinstance(x, KeyError):
            return to_str(x.args[0])
        return to_repr(x.args if len(x.args) != 1 else x.args[0])
    return str(x)


def to_repr(x):
    t = type(x)
    if t in SSTR:
        if t is not SymStr and t.__repr__ is not SymStr.__repr__:
            return call(t.__repr__, x)
        # quotes/escapes: only printable ASCII without quotes is kept symbolic
        out = []
        for c in x.cs:
            if type(c) is int:
                out.append(c)
            elif _tc(z3.And(c >= 32, c <= 126, c != 39, c != 34, c != 92)):
                out.append(c)
            else:
                return repr(conc(x))
        if any(type(c) is int and (c in (39, 34, 92) or not 32 <= c <= 126) for c in out):
            return repr(conc(x))
        return mkstr([39] + out + [39])
    if t is SymInt:
        return int_to_str(x)
    if t is SymBool:
        return "True" if x else "False"
    if t is list and has_sym(x):
        return cat("[", joined(", ", [to_repr(i) for i in x]), "]")
    if t is dict and has_sym(x):
        return cat("{", joined(", ", [cat(to_repr(k), ": ", to_repr(v)) for k, v in x.items()]), "}")
    if isinstance(x, tuple) and has_sym(x):
        if hasattr(t, "_fields"):
            r = t.__repr__
            parts = [cat(f, "=", to_repr(v)) for f, v in zip(t._fields, x)]
            return cat(t.__name__, "(", joined(", ", parts), ")")
        return cat("(", joined(", ", [to_repr(i) for i in x]), ",)" if len(x) == 1 else ")")
    return repr(x)


def cat(*ss):
    out = []
    for s in ss:
        out += lift(s).cs
    return mkstr(out)


def joined(sep, ss):
    return lift(sep).join(ss)


_pct = re.compile(r"%(?:\((.*?)\))?([#0\- +]*)(\*|\d+)?(?:\.(\*|\d+))?[hlL]?([diouxXeEfFgGcrsa%])", re.S)


def percent_format(fmt, args):
    if not has_sym(args) and type(fmt) not in SSTR and not _sym_attr(args):
        return fmt % args
    f = conc(fmt)
    out, last, ai = [], 0, 0
    mapping = isinstance(args, dict)
    tup = args if isinstance(args, tuple) else (args,)
    for m in _pct.finditer(f):
        out += map(ord, f[last:m.start()])
        last = m.end()
        key, flags, width, prec, conv = m.groups()
        if conv == "%":
            out.append(37)
            continue
        if key is not None:
            v = call(operator.getitem, args, key)
        else:
            if width == "*":
                width = str(conc(tup[ai]))
                ai += 1
            if prec == "*":
                prec = str(conc(tup[ai]))
                ai += 1
            if ai >= len(tup):
                raise TypeError("not enough arguments for format string")
            v = tup[ai]
            ai += 1
        simple = not flags.replace("-", "") and prec is None
        if conv == "s" and simple:
            s = to_str(v)
        elif conv == "r" and simple:
            s = to_repr(v)
        elif conv in "di" and simple and isinstance(v, int):
            s = to_str(int(v) if type(v) is bool else v._i() if type(v) is SymBool else v)
        else:
            if type(v) in SYM or has_sym(v):
                v = conc_deep(v)
            spec = "%" + flags + (width or "") + ("." + prec if prec is not None else "") + conv
            s = spec % (v,)
            width = None
        cs = lift(s).cs
        if width:
            w = int(width)
            pad = (32,) * max(0, w - len(cs))
            cs = cs + pad if "-" in flags else pad + cs
        out += cs
    out += map(ord, f[last:])
    if key_unused(mapping, ai, tup, args):
        raise TypeError("not all arguments converted during string formatting")
    return mkstr(out)


def key_unused(mapping, ai, tup, args):
    return not mapping and ai < len(tup)


def _sym_attr(args):
    if isinstance(args, tuple):
        return any(_sym_attr(a) for a in args)
    return isinstance(args, BaseException) and has_sym(args.args) or isinstance(args, str) and \
        type(args) is not str


def format_value(v, spec="", conversion=None):
    if conversion == "r":
        v = to_repr(v)
    elif conversion == "s":
        v = to_str(v)
    elif conversion == "a":
        v = ascii(conc_deep(v))
    t = type(v)
    if t in SYM or has_sym(v) or _sym_attr((v,)):
        spec = conc(spec)
        if spec in ("", "s"):
            return to_str(v)
        if spec == "d":
            return to_str(v)
        m = re.fullmatch(r"([<>^]?)(\d+)s?", spec)
        if m and t in SSTR:
            n = max(0, int(m.group(2)) - len(v))
            al = m.group(1) or "<"
            left = 0 if al == "<" else n if al == ">" else n // 2
            return v._pad(0, " ", left, n - left)
        return format(conc_deep(v), spec)
    return format(v, conc(spec))


def str_format(fmt, args, kw):
    import string

    f = conc(fmt)
    out = []
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(f):
        out += map(ord, lit)
        if field is None:
            continue
        m = re.match(r"[^.\[]*", field)
        first, rest = m.group(), field[m.end():]
        if first == "":
            v = args[auto]
            auto += 1
        elif first.isdigit():
            v = args[int(first)]
        else:
            v = kw[first]
        for a in re.findall(r"\.(\w+)|\[([^\]]+)\]", rest):
            v = getattr(v, a[0]) if a[0] else v[int(a[1]) if a[1].isdigit() else a[1]]
        if spec and "{" in spec:
            spec = str_format(spec, args[auto:], kw)
        out += lift(format_value(v, spec, conv)).cs
    return mkstr(out)


# ------------------------------------------------------------------ subscripts / containment
def find_key(d, k):
    """The key of real dict/set `d` equal to symbolic `k` on this path, or _MISSING."""
    for x in d:
        if isinstance(k, str):
            if isinstance(x, str):
                r = k == x
            else:
                continue
        else:
            if isinstance(x, str):
                continue
            r = x == k
        if r is True or (r is not False and r is not NotImplemented and bool(r)):
            return x
    return _MISSING


def hashable_sym(k):
    return type(k) in SYM or isinstance(k, tuple) and has_sym(k)


def opaque(o):
    """Containers whose look-ups are left to their library, with fixed keys."""
    return type(o).__module__.startswith("pandas.")


def getitem(o, k):
    if isinstance(o, dict) and hashable_sym(k):
        x = find_key(o, k)
        if x is _MISSING:
            m = getattr(type(o), "__missing__", None)
            if m is not None:
                return m(o, conc_deep(k))
            raise KeyError(k)
        return dict_get_real(o, x)
    t = type(k)
    if t is SymInt and isinstance(o, (list, tuple)) and type(o) in (list, tuple):
        n = len(o)
        eng = cur()
        if eng.branch(k.e < 0):
            k = mkint(k.e + n)
            if k < 0:
                raise IndexError("%s index out of range" % type(o).__name__)
        elif not (k < n):
            raise IndexError("%s index out of range" % type(o).__name__)
        if type(k) is SymInt:
            k = k.__index__()
        return o[k]
    if type(o) is str and t is SymInt:
        if not (-len(o) <= k) or not (k < len(o)):
            raise IndexError("string index out of range")
        if len(o) > 2:
            e = z3.If(k.e < 0, k.e + len(o), k.e)
            return mkstr([simplify(piecewise(e, {i: ord(c) for i, c in enumerate(o)}))])
        return o[k.__index__()]
    if t in SSTR and isinstance(o, (list, tuple, str)):
        o["x"]
    if opaque(o):
        k = conc_deep(k)
    return o[k]


def dict_get_real(o, x):
    return o[x]


def setitem(o, k, v):
    if isinstance(o, dict) and hashable_sym(k):
        x = find_key(o, k)
        if x is _MISSING:
            x = conc_deep(k)
        o[x] = v
        return
    if opaque(o):
        k = conc_deep(k)
    o[k] = v


def delitem(o, k):
    if isinstance(o, dict) and hashable_sym(k):
        x = find_key(o, k)
        if x is _MISSING:
            raise KeyError(k)
        del o[x]
        return
    if opaque(o):
        k = conc_deep(k)
    del o[k]


def contains(c, x):
    """x in c"""
    if isinstance(c, str):
        if type(c) in SSTR or has_sym(x):
            c, x = lift(c), lift(_need_str(x)).cs
            return or_any([mkbool(c._matches_at(x, i)) for i in range(len(c.cs) - len(x) + 1)])
        return x in c
    if hashable_sym(x) and isinstance(c, (dict, set, frozenset, type({}.keys()))):
        return find_key(c, x) is not _MISSING
    if type(x) in SYM and type(c) in (list, tuple):
        # merged: one decision for the whole membership test
        return or_any([_eqv(x, y) for y in c])
    if opaque(c):
        x = conc_deep(x)
    return x in c


def _eqv(x, y):
    r = x == y
    return r if type(r) in (bool, SymBool) else bool(r)


def _need_str(x):
    if not isinstance(x, str):
        raise TypeError("'in <string>' requires string as left operand, not %s" % type(x).__name__)
    return x


# ------------------------------------------------------------------ builtins
def m_isinstance(o, cls):
    return isinstance(o, cls)


def m_type(*a):
    if len(a) == 1:
        t = type(a[0])
        return {SymStr: str, SymInt: int, SymBool: bool}.get(t) or CLASS_OF.get(t, t)
    return type(*a)


CLASS_OF = {}


def m_str(o="", *a, **k):
    if a or k:
        return str(conc(o), *a, **k)
    return to_str(o)


def m_int(o=0, *a, **k):
    t = type(o)
    base = a[0] if a else k.get("base", 10)
    if t in SSTR:
        return str_to_int(o, base)
    if t is SymInt:
        return o
    if t is SymBool:
        return o._i()
    f = INT_MODEL.get(t)
    if f and not a and not k:
        return f(o)
    return int(conc_deep(o), *a, **k)


INT_MODEL = {}


def m_bool(o=False):
    t = type(o)
    if t is SymBool:
        return o
    if t is SymInt:
        return mkbool(o.e != 0)
    return bool(o)  # asks __bool__ of the symbolic ones


def m_float(o=0.0):
    if type(o) in SYM:
        f = FLOAT_MODEL.get(type(o))
        if f:
            return f(o)
        return float(conc(o))
    return float(o)


FLOAT_MODEL = {}


def m_len(o):
    return len(o)


def m_ord(c):
    if type(c) in SSTR:
        if len(c) != 1:
            raise TypeError("ord() expected a character, but string of length %d found" % len(c))
        return mkint(c.cs[0])
    return ord(c)


def m_chr(i):
    if type(i) is SymInt:
        return mkstr([simplify(i.e)])
    return chr(i)


def m_getattr(o, name, *d):
    return getattr(o, conc(name), *d)


def m_hasattr(o, name):
    return hasattr(o, conc(name))


def m_setattr(o, name, v):
    return setattr(o, conc(name), v)


def m_set(it=()):
    return set(_hashables(it))


def m_frozenset(it=()):
    return frozenset(_hashables(it))


def _hashables(it):
    """Fix symbolic members, skipping those equal to one already present."""
    seen = []
    for x in it:
        if hashable_sym(x):
            if find_key(seen, x) is not _MISSING:
                continue
            x = conc_deep(x)
        seen.append(x)
    return seen


def m_dict(*a, **k):
    d = {}
    if a:
        src = a[0]
        if hasattr(src, "keys"):
            for x in src.keys():
                setitem(d, x, src[x])
        else:
            for x, v in src:
                setitem(d, x, v)
    d.update(k)
    return d


def m_map(f, *its):
    return map(lambda *a: call(f, *a), *its)


def m_filter(f, it):
    if f is None:
        return filter(None, it)
    return filter(lambda *a: call(f, *a), it)


def _minmax(name):
    real = getattr(builtins, name)

    def f(*a, key=None, **k):
        if key is None and not k:
            items = a if len(a) > 1 else list(a[0])
            if items and all(type(x) in (int, SymInt) for x in items):
                from .values import ite

                r = items[0]
                for x in items[1:]:
                    c = x < r if name == "min" else x > r
                    r = ite(c, x, r)
                return r
            if len(a) == 1:
                a = (items,)
        if key is not None:
            k["key"] = lambda *x: call(key, *x)
        return real(*a, **k)

    return f


def m_sum(it, start=0):
    for x in it:
        start = start + x
    return start


def m_any(it):
    for x in it:
        if x:
            return True
    return False


def m_all(it):
    for x in it:
        if not x:
            return False
    return True


def m_sorted(it, key=None, reverse=False):
    if key is None:
        return sorted(it, reverse=reverse)
    return sorted(it, key=lambda x: call(key, x), reverse=reverse)


def m_repr(o):
    return to_repr(o)


def m_format(v, spec=""):
    return format_value(v, spec)


def m_abs(v):
    return abs(v)


def m_range(*a):
    return range(*(conc(x) for x in a))


def m_iter(o, *a):
    return iter(o, *a)


def m_callable(o):
    return False if type(o) in SYM else callable(o)


def m_id(o):
    return id(o)


def m_hash(o):
    return hash(conc_deep(o))


def m_getitem(o, k):
    return getitem(o, k)


def m_copy(x):
    return x if type(x) in SYM else copy.copy(x)


def m_partial(f, *a, **k):
    return functools.partial(call, f, *a, **k)


def m_reduce(f, *a):
    return functools.reduce(lambda x, y: call(f, x, y), *a)


def passthru(f):
    return lambda *a, **k: f(*a, **k)


MODELS = {
    isinstance: m_isinstance, type: m_type, str: m_str, int: m_int, bool: m_bool,
    float: m_float, len: m_len, ord: m_ord, chr: m_chr, getattr: m_getattr, hasattr: m_hasattr,
    setattr: m_setattr, set: m_set, frozenset: m_frozenset, dict: m_dict, map: m_map,
    filter: m_filter, min: _minmax("min"), max: _minmax("max"), sum: m_sum, any: m_any,
    all: m_all, sorted: m_sorted, repr: m_repr, format: m_format, abs: m_abs, range: m_range,
    callable: m_callable, hash: m_hash, operator.getitem: m_getitem, copy.copy: m_copy,
    functools.partial: m_partial, functools.reduce: m_reduce,
    operator.contains: contains, operator.not_: lambda o: not o,
}
# natively correct for symbolic members (they only move objects or use operators/iteration)
SAFE = {list, tuple, zip, enumerate, reversed, iter, next, id, print, divmod, slice,
        issubclass, vars, dir, delattr, super, property, object, copy.deepcopy,
        itertools.chain, itertools.repeat, itertools.islice, itertools.cycle, itertools.product,
        itertools.count, itertools.starmap, itertools.tee,
        operator.eq, operator.ne, operator.lt, operator.le, operator.gt, operator.ge,
        operator.add, operator.sub, operator.mul, operator.truth, operator.index,
        BaseException.__new__, BaseException.__init__, object.__new__, object.__init__,
        tuple.__new__, sys.exc_info}
SAFE_CONTAINER_METHODS = {
    list: {"append", "extend", "insert", "pop", "index", "count", "remove", "copy", "sort",
           "reverse", "clear", "__init__", "__iter__", "__len__", "__getitem__", "__setitem__",
           "__contains__", "__eq__", "__add__"},
    tuple: {"index", "count", "__iter__", "__len__", "__getitem__", "__contains__", "__eq__",
            "__new__"},
}


def _dict_method(d, name, a, k):
    cls = type(d)
    if name in ("get", "__getitem__", "pop", "setdefault", "__contains__", "__setitem__",
                "__delitem__") and a and hashable_sym(a[0]):
        key = a[0]
        if name == "__contains__":
            return find_key(d, key) is not _MISSING
        if name == "__setitem__":
            return setitem(d, key, a[1])
        x = find_key(d, key)
        if x is not _MISSING:
            return getattr(d, name)(x, *a[1:], **k)
        if name == "get":
            return a[1] if len(a) > 1 else k.get("default")
        if name == "pop":
            if len(a) > 1:
                return a[1]
            raise KeyError(key)
        if name == "setdefault":
            return d.setdefault(conc_deep(key), *a[1:])
        return getitem(d, key) if name == "__getitem__" else delitem(d, key)
    if name == "update" and a and not isinstance(a[0], dict) and not hasattr(a[0], "keys"):
        for kk, v in a[0]:
            setitem(d, kk, v)
        d.update(**k)
        return None
    return _MISSING


def _set_method(s, name, a):
    if name in ("add", "discard", "remove", "__contains__") and a and hashable_sym(a[0]):
        x = find_key(s, a[0])
        if name == "__contains__":
            return x is not _MISSING
        if name == "add":
            if x is _MISSING:
                s.add(conc_deep(a[0]))
            return None
        if x is not _MISSING:
            s.discard(x)
        elif name == "remove":
            raise KeyError(a[0])
        return None
    if name in ("update", "union", "intersection", "difference", "issubset", "issuperset",
                "symmetric_difference", "isdisjoint"):
        return getattr(s, name)(*[set(_hashables(x)) for x in a])
    return _MISSING


import os

DEBUG_GAPS = os.environ.get('SYMX_GAPS')
FUNC_MODELS = {}   # python function / C function -> model (called when args are symbolic)
STUBS = {}         # function -> stand-in (always called)
TWINS = None       # set by instrument: function -> instrumented twin or None
METHOD_MODELS = {}  # (type, name) -> f(self, *a, **k)
_RE_FUNCS = {}
for _n in ("match", "fullmatch", "search", "finditer", "findall"):
    _RE_FUNCS[getattr(re, _n)] = (
        lambda n: lambda p, s, flags=0: R.METHODS[n](re.compile(conc(p), flags), s))(_n)
_RE_FUNCS[re.sub] = lambda p, r, s, count=0, flags=0: R.p_sub(re.compile(conc(p), flags), r, s, count)
_RE_FUNCS[re.split] = lambda p, s, maxsplit=0, flags=0: R.p_split(re.compile(conc(p), flags), s, maxsplit)


def m_re_escape(s):
    out = []
    special = {ord(c): 1 for c in "()[]{}?*+-|^$\\.&~# \t\n\r\v\f"}
    codes = tuple(sorted(special))
    from .values import _in_codes

    for c in lift(s).cs:
        if _tc(_in_codes(c, codes)):
            out.append(92)
        out.append(c)
    return mkstr(out)


_RE_FUNCS[re.escape] = m_re_escape


def _gap(f):
    e = cur()
    if DEBUG_GAPS and DEBUG_GAPS in str(getattr(f, "__name__", f)):
        import traceback
        traceback.print_stack()
    if e is not None:
        e.stats["gaps"] += 1
        n = "%s.%s" % (getattr(f, "__module__", None) or getattr(
            getattr(f, "__objclass__", None) or type(getattr(f, "__self__", None)), "__name__", "?"),
            getattr(f, "__name__", f))
        e.gap_notes[n] = e.gap_notes.get(n, 0) + 1


def anysym(a, k):
    for x in a:
        if type(x) in SYM or has_sym(x):
            return True
    for x in k.values():
        if type(x) in SYM or has_sym(x):
            return True
    return False


def call(f, /, *a, **k):
    t = type(f)
    if t is FunctionType:
        g = f.__globals__
        if "__sx__" in g:
            if f in STUBS:
                return STUBS[f](*a, **k)
            return f(*a, **k)
        return _call_foreign(f, a, k)
    if t is MethodType:
        fn = f.__func__
        if type(fn) is FunctionType:
            if "__sx__" in fn.__globals__:
                return f(*a, **k)
            return _call_foreign_method(f, fn, a, k)
        return call(fn, f.__self__, *a, **k)
    if t is type or isinstance(f, type):
        return _call_class(f, a, k)
    if t is BuiltinType or t is WrapperType or t is CMethodType:
        return _call_builtin(f, a, k)
    if t is MethodDescr or t is type(str.__add__):
        if f.__name__ == "__setattr__" and a and type(a[0]) in SSTR:
            return f(a[0], conc(a[1]), *a[2:])
        if a and (f.__objclass__ is str) and anysym(a, k):
            s = lift(a[0])
            if s is not None and f.__name__ != "__new__":
                return getattr(s, f.__name__)(*a[1:], **k)
        if a and not anysym(a[1:], k) and type(a[0]) not in SYM:
            return f(*a, **k)
        if a and isinstance(a[0], (dict, set, list)):
            return _call_builtin(getattr(a[0], f.__name__), a[1:], k)
        return _generic(f, a, k)
    if t in SYM:
        raise TypeError("'%s' object is not callable" % m_type(f).__name__)
    if t is functools.partial:
        return call(f.func, *f.args, *a, **{**f.keywords, **k})
    s = STUBS.get(f) if _hashable_fn(f) else None
    if s is not None:
        return s(*a, **k)
    h = FUNC_MODELS.get(f) if _hashable_fn(f) else None
    if h is not None and anysym(a, k):
        return h(*a, **k)
    if t is LruType:
        if not anysym(a, k):
            return f(*a, **k)
        return call(f.__wrapped__, *a, **k)
    c = getattr(type(f), "__call__", None)
    if type(c) is FunctionType:
        if "__sx__" in c.__globals__:
            return f(*a, **k)
        return _call_foreign(c, (f,) + a, k)
    if not anysym(a, k):
        return f(*a, **k)
    if t is operator.itemgetter or t is operator.attrgetter or t is operator.methodcaller:
        return f(*a, **k)
    return _generic(f, a, k)


def _hashable_fn(f):
    return getattr(type(f), "__hash__", None) is not None and type(f).__module__ in (
        "builtins", "numpy", "functools", "operator", "re")


def _generic(f, a, k):
    """Unmodelled: fix every symbolic argument (forking over its values) and call."""
    if not anysym(a, k):
        return f(*a, **k)
    if type(f).__module__.split(".")[0] == "numpy":  # ufuncs, dispatchers: overridden by SymArray
        return f(*[x if type(x) in CLASS_OF else conc_deep(x) for x in a],
                 **{n: conc_deep(v) for n, v in k.items()})
    _gap(f)
    return f(*[conc_deep(x) for x in a], **{n: conc_deep(v) for n, v in k.items()})


def _call_class(f, a, k):
    s = STUBS.get(f)
    if s is not None:
        return s(*a, **k)
    h = MODELS.get(f)
    if h is not None:
        if anysym(a, k) or f in (map, filter, dict, type) or (f is str and a and _sym_attr(a)):
            return h(*a, **k)
        return f(*a, **k)
    if f in SAFE or f.__module__ not in ("builtins", "re", "datetime", "_io", "decimal",
                                          "fractions", "numpy"):
        h = FUNC_MODELS.get(f)
        if h is not None and anysym(a, k):
            return h(*a, **k)
        return f(*a, **k)
    if issubclass(f, BaseException):
        return f(*a, **k)
    h = FUNC_MODELS.get(f)
    if h is not None and anysym(a, k):
        return h(*a, **k)
    return _generic(f, a, k)


def _call_builtin(f, a, k):
    me = getattr(f, "__self__", None)
    if me is None or type(me) is types.ModuleType:
        s = STUBS.get(f)
        if s is not None:
            return s(*a, **k)
        h = MODELS.get(f)
        if h is not None:
            if anysym(a, k) or f is sorted or f in (min, max) or (f in (
                    repr, format) and _sym_attr(a)):
                return h(*a, **k)
            return f(*a, **k)
        if f in SAFE:
            return f(*a, **k)
        if not anysym(a, k):
            return f(*a, **k)
        h = FUNC_MODELS.get(f)
        if h is not None:
            return h(*a, **k)
        return _generic(f, a, k)
    name = f.__name__
    tm = type(me)
    if me is str and name == "__new__" and a and isinstance(a[0], type) and issubclass(a[0], SymStr):
        return StrBase.make(a[0], *[to_str(x) for x in a[1:]])
    if isinstance(me, str):
        if name == "join":
            items = list(a[0])
            if any(type(x) in SYM or _sym_attr((x,)) for x in items):
                return lift(me).join(items)
            return me.join(items)
        if name == "format":
            if anysym(a, k) or _sym_attr(a) or _sym_attr(tuple(k.values())):
                return str_format(me, a, k)
            return f(*a, **k)
        if anysym(a, k):
            return getattr(lift(me), name)(*a, **k)
        return f(*a, **k)
    if isinstance(me, dict):
        r = _dict_method(me, name, a, k)
        return f(*a, **k) if r is _MISSING else r
    if isinstance(me, (set, frozenset)):
        if anysym(a, k):
            r = _set_method(me, name, a)
            if r is not _MISSING:
                return r
        return f(*a, **k)
    if tm in SAFE_CONTAINER_METHODS and name in SAFE_CONTAINER_METHODS[tm]:
        if name == "sort" and k.get("key"):
            kf = k["key"]
            k = dict(k, key=lambda x: call(kf, x))
        return f(*a, **k)
    if isinstance(me, list) and name in SAFE_CONTAINER_METHODS[list]:
        return f(*a, **k)
    if tm is re.Pattern:
        if anysym(a, k):
            h = R.METHODS.get(name)
            if h is not None:
                if name == "sub" and "repl" in k:
                    pass
                return h(me, *a, **k)
        elif name in ("sub", "subn") and not isinstance(a[0], str):
            fn = a[0]
            return f(lambda m: call(fn, m), *a[1:], **k)
        return f(*a, **k)
    h = METHOD_MODELS.get((tm, name))
    if h is not None:
        return h(me, *a, **k)
    if not anysym(a, k):
        return f(*a, **k)
    if isinstance(me, type):  # classmethods / __new__
        if f in SAFE or name in ("_make", "__new__", "mro"):
            return f(*a, **k)
        if me is dict and name == "fromkeys":
            d = {}
            for x in a[0]:
                setitem(d, x, a[1] if len(a) > 1 else None)
            return d
        if me is str and name == "maketrans":
            return f(*[conc_deep(x) for x in a])
    if tm.__module__ == "collections" and name in ("append", "appendleft", "extend", "pop",
                                                   "popleft", "__init__"):
        return f(*a, **k)
    if name in ("__init__", "__new__", "__init_subclass__", "__setattr__", "__getattribute__"):
        if name in ("__setattr__", "__getattribute__"):
            return f(conc(a[0]), *a[1:])
        return f(*a, **k)
    return _generic(f, a, k)


PASS_MODULES = {"logging", "abc", "contextlib", "functools", "collections", "copy", "types",
                "unittest.mock", "warnings", "traceback", "_symx_harness", "typing"}


def _call_foreign(f, a, k):
    s = STUBS.get(f)
    if s is not None:
        return s(*a, **k)
    if not anysym(a, k):
        return f(*a, **k)
    h = FUNC_MODELS.get(f) or _RE_FUNCS.get(f)
    if h is not None:
        return h(*a, **k)
    mod = f.__module__ or ""
    if mod.startswith("symx") or mod.split(".")[0] in PASS_MODULES or mod in PASS_MODULES:
        return f(*a, **k)
    if f.__name__ in ("__init__", "__new__", "_make", "_replace", "_asdict", "__eq__") and (
            mod.startswith("namedtuple") or f.__globals__.get("_tuple_new") is not None):
        return f(*a, **k)
    tw = TWINS(f) if TWINS else None
    if tw is not None:
        return tw(*a, **k)
    return _generic(f, a, k)


def _call_foreign_method(f, fn, a, k):
    s = STUBS.get(fn)
    if s is not None:
        return s(f.__self__, *a, **k)
    if not anysym(a, k) and not has_sym(f.__self__):
        return f(*a, **k)
    if getattr(fn, "__module__", "").startswith("namedtuple") or fn.__name__ in (
            "_make", "_replace", "_asdict"):
        return f(*a, **k)
    mod = fn.__module__ or ""
    if mod.startswith("symx") or mod.split(".")[0] in PASS_MODULES:
        return f(*a, **k)
    h = FUNC_MODELS.get(fn)
    if h is not None:
        return h(f.__self__, *a, **k)
    tw = TWINS(fn) if TWINS else None
    if tw is not None:
        return tw(f.__self__, *a, **k)
    if not anysym(a, k):
        return f(*a, **k)
    return _generic(f, a, k)


def binop_mod(a, b):
    if isinstance(a, str):
        if type(a) in SSTR or has_sym(b) or _sym_attr((b,)):
            return percent_format(a, b)
    return a % b


def fstring(parts):
    out = []
    for p in parts:
        if type(p) is str:
            out += map(ord, p)
        else:
            v, conv, spec = p
            out += lift(format_value(v, spec, conv)).cs
    return mkstr(out)
