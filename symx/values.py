"""Symbolic stand-ins for bool, int and str (and helpers to concretise them)."""
import sys
from fractions import Fraction

from .engine import Engine, EngineError, PathAbort, simplify, z3

_IntVal = z3.IntVal


def cur():
    return Engine.current


# ------------------------------------------------------------------ booleans
class SymBool:
    __slots__ = ("e",)
    __hash__ = None

    def __init__(self, e):
        self.e = e

    @property
    def __class__(self):
        return bool

    def __bool__(self):
        return cur().branch(self.e)

    def __eq__(self, o):
        o = bexpr(o)
        if o is None:
            return NotImplemented
        return mkbool(self.e == o)

    def __ne__(self, o):
        o = bexpr(o)
        if o is None:
            return NotImplemented
        return mkbool(self.e != o)

    def __hash__(self):
        return hash(bool(self))

    def __index__(self):
        return int(bool(self))

    __int__ = __index__

    def __and__(self, o):
        if isinst(o, bool):
            return mkbool(z3.And(self.e, bexpr(o)))
        return self._i() & o

    __rand__ = __and__

    def __or__(self, o):
        if isinst(o, bool):
            return mkbool(z3.Or(self.e, bexpr(o)))
        return self._i() | o

    __ror__ = __or__

    def __xor__(self, o):
        if isinst(o, bool):
            return mkbool(z3.Xor(self.e, bexpr(o)))
        return self._i() ^ o

    __rxor__ = __xor__

    def __invert__(self):
        return ~self._i()

    def _i(self):
        return mkint(z3.If(self.e, _IntVal(1), _IntVal(0)))

    def __add__(self, o):
        return self._i() + o

    def __radd__(self, o):
        return o + self._i()

    def __sub__(self, o):
        return self._i() - o

    def __rsub__(self, o):
        return o - self._i()

    def __mul__(self, o):
        return self._i() * o

    def __rmul__(self, o):
        return o * self._i()

    def __lt__(self, o):
        return self._i() < o

    def __le__(self, o):
        return self._i() <= o

    def __gt__(self, o):
        return self._i() > o

    def __ge__(self, o):
        return self._i() >= o

    def __repr__(self):
        return opaque()

    __str__ = __repr__

    def __format__(self, spec):
        return opaque()

    def __getattr__(self, name):
        if name.startswith("__") or not hasattr(bool, name):
            raise AttributeError("'bool' object has no attribute %r" % name)
        return getattr(bool(self), name)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


def opaque():
    e = cur()
    if e is not None:
        e.stats["opaque_formats"] += 1
    return "\u27e6sym\u27e7"


def isinst(o, cls):
    """Real isinstance, through __class__ of the symbolic stand-ins."""
    return isinstance(o, cls)


def bexpr(o):
    t = type(o)
    if t is SymBool:
        return o.e
    if t is bool:
        return z3.BoolVal(o)
    if t is SymInt:
        return o.e != 0 if False else None
    return None


def mkbool(e):
    if e is True or e is False:
        return e
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


def not_(b):
    if type(b) is SymBool:
        return mkbool(z3.Not(b.e))
    return not b


def and_all(bs):
    es = []
    for b in bs:
        if type(b) is SymBool:
            es.append(b.e)
        elif not b:
            return False
    if not es:
        return True
    return SymBool(z3.And(es) if len(es) > 1 else es[0])


def or_any(bs):
    es = []
    for b in bs:
        if type(b) is SymBool:
            es.append(b.e)
        elif b:
            return True
    if not es:
        return False
    return SymBool(z3.Or(es) if len(es) > 1 else es[0])


def ite(c, a, b):
    """Merged selection between two ints/bools."""
    if type(c) is not SymBool:
        return a if c else b
    if a is b:
        return a
    if isinst(a, bool) and isinst(b, bool):
        return mkbool(z3.If(c.e, bexpr(a), bexpr(b)))
    return mkint(z3.If(c.e, iexpr(a), iexpr(b)))


# ------------------------------------------------------------------ integers
def iexpr(o):
    t = type(o)
    if t is int:
        return _IntVal(o)
    if t is SymInt:
        return o.e
    if t is bool:
        return _IntVal(int(o))
    if t is SymBool:
        return z3.If(o.e, _IntVal(1), _IntVal(0))
    if hasattr(o, "dtype") and getattr(o, "shape", None) == () and o.dtype.kind in "biu":
        return _IntVal(int(o))
    if isinstance(o, int):
        return _IntVal(int(o))
    return None


def mkint(e):
    if type(e) is int:
        return e
    e = simplify(e)
    if z3.is_int_value(e):
        return e.as_long()
    return SymInt(e)


def _cmpexpr(a, o, op):
    b = iexpr(o)
    if b is None:
        if type(o) is float:
            if o != o:
                return op == "ne"
            if o in (float("inf"), float("-inf")):
                return {"lt": o > 0, "le": o > 0, "gt": o < 0, "ge": o < 0,
                        "eq": False, "ne": True}[op]
            fr = Fraction(o)
            a, b = z3.ToReal(a), z3.RealVal(str(fr))
        else:
            return NotImplemented
    if op == "lt":
        e = a < b
    elif op == "le":
        e = a <= b
    elif op == "gt":
        e = a > b
    elif op == "ge":
        e = a >= b
    elif op == "eq":
        e = a == b
    else:
        e = a != b
    e = simplify(e)
    return mkbool(e)


class SymInt:
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    @property
    def __class__(self):
        return int

    def __hash__(self):
        return hash(self.__index__())

    def __bool__(self):
        return cur().branch(self.e != 0)

    def __index__(self):
        return cur().concretize_expr(self.e)

    __int__ = __index__
    __trunc__ = __index__

    def __float__(self):
        return float(self.__index__())

    def __eq__(self, o):
        return _cmpexpr(self.e, o, "eq")

    def __ne__(self, o):
        return _cmpexpr(self.e, o, "ne")

    def __lt__(self, o):
        return _cmpexpr(self.e, o, "lt")

    def __le__(self, o):
        return _cmpexpr(self.e, o, "le")

    def __gt__(self, o):
        return _cmpexpr(self.e, o, "gt")

    def __ge__(self, o):
        return _cmpexpr(self.e, o, "ge")

    def __add__(self, o):
        b = iexpr(o)
        if b is None:
            return self._fall("__add__", o)
        return mkint(self.e + b)

    def __radd__(self, o):
        b = iexpr(o)
        if b is None:
            return self._fall("__radd__", o)
        return mkint(b + self.e)

    def __sub__(self, o):
        b = iexpr(o)
        if b is None:
            return self._fall("__sub__", o)
        return mkint(self.e - b)

    def __rsub__(self, o):
        b = iexpr(o)
        if b is None:
            return self._fall("__rsub__", o)
        return mkint(b - self.e)

    def __mul__(self, o):
        b = iexpr(o)
        if b is None:
            return self._fall("__mul__", o)
        return mkint(self.e * b)

    __rmul__ = __mul__

    def _fall(self, name, o):
        if type(o) in (float, complex):
            return getattr(self.__index__() + 0.0 if type(o) is float else
                           complex(self.__index__()), name)(o)
        if isinstance(o, (str, list, tuple, bytes)) and name in ("__mul__", "__rmul__"):
            return o * self.__index__()
        return NotImplemented

    def _fdiv(self, a, b):
        """Python floor division / modulo over z3's Euclidean ones."""
        if z3.is_int_value(b):
            k = b.as_long()
            if k == 0:
                raise ZeroDivisionError("integer division or modulo by zero")
            if k > 0:
                return a / b, a % b
            q = (-a) / _IntVal(-k)
            return q, a - b * q
        k = cur().concretize_expr(b)
        return self._fdiv(a, _IntVal(k))

    def __floordiv__(self, o):
        b = iexpr(o)
        if b is None:
            return self._fall("__floordiv__", o)
        return mkint(self._fdiv(self.e, b)[0])

    def __mod__(self, o):
        b = iexpr(o)
        if b is None:
            return self._fall("__mod__", o)
        return mkint(self._fdiv(self.e, b)[1])

    def __rfloordiv__(self, o):
        b = iexpr(o)
        if b is None:
            return self._fall("__rfloordiv__", o)
        return mkint(self._fdiv(b, self.e)[0])

    def __rmod__(self, o):
        b = iexpr(o)
        if b is None:
            return NotImplemented
        return mkint(self._fdiv(b, self.e)[1])

    def __divmod__(self, o):
        return self // o, self % o

    def __rdivmod__(self, o):
        return o // self, o % self

    def __truediv__(self, o):
        return self.__index__() / o

    def __rtruediv__(self, o):
        return o / self.__index__()

    def __pow__(self, o, m=None):
        return pow(self.__index__(), o, m)

    def __rpow__(self, o, m=None):
        return pow(o, self.__index__(), m)

    def __lshift__(self, o):
        return self.__index__() << o

    def __rlshift__(self, o):
        return o << self.__index__()

    def __rshift__(self, o):
        return self.__index__() >> o

    def __rrshift__(self, o):
        return o >> self.__index__()

    def __and__(self, o):
        return self.__index__() & conc(o)

    __rand__ = __and__

    def __or__(self, o):
        return self.__index__() | conc(o)

    __ror__ = __or__

    def __xor__(self, o):
        return self.__index__() ^ conc(o)

    __rxor__ = __xor__

    def __invert__(self):
        return -self - 1

    def __neg__(self):
        return mkint(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        return mkint(z3.If(self.e >= 0, self.e, -self.e))

    def __round__(self, n=None):
        return self if n is None else round(self.__index__(), n)

    __floor__ = __ceil__ = __pos__

    def __repr__(self):
        return opaque()

    __str__ = __repr__

    def __format__(self, spec):
        return opaque()

    def __getattr__(self, name):
        if name.startswith("__") or not hasattr(int, name):
            raise AttributeError("'int' object has no attribute %r" % name)
        return getattr(self.__index__(), name)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


def int_to_str(x):
    """str(int) for a symbolic int: fork on sign and digit count, digits stay symbolic."""
    eng = cur()
    e = x.e
    neg = eng.branch(e < 0)
    if neg:
        e = -e
    n = 1
    while eng.branch(e >= 10 ** n):
        n += 1
        if n > 12:
            raise PathAbort("int too long to format")
    if n == 1:
        digs = [simplify(e + 48)]
    else:
        digs = [simplify((e / _IntVal(10 ** k)) % _IntVal(10) + 48) for k in range(n - 1, -1, -1)]
    cs = ([45] if neg else []) + [d.as_long() if z3.is_int_value(d) else d for d in digs]
    return mkstr(cs)


def str_to_int(s, base=10):
    """int(str): forks on the class of each character, value stays symbolic."""
    if base != 10:
        return int(conc(s), base)
    st = s.strip()
    if type(st) is str:
        return int(st)
    cs = list(st.cs)
    sign = 1
    if cs and _tc(_in_codes(cs[0], (43, 45))):
        if _tc(_eqc(cs[0], 45)):
            sign = -1
        cs = cs[1:]
    ok = bool(cs)
    val = 0
    prev_us = True
    for c in cs:
        if _tc(_range(c, 48, 57)):
            d = c - 48 if type(c) is int else c - 48
            val = val * 10 + d
            prev_us = False
        elif _tc(_eqc(c, 95)):
            if prev_us:
                ok = False
                break
            prev_us = True
        else:
            if cur().nonascii and _tc(_ge(c, 128)):
                return int(conc(s))
            ok = False
            break
    if not ok or prev_us:
        raise ValueError(SymMsg("invalid literal for int() with base 10: ", s))
    val = val * sign
    return val if type(val) is int else mkint(val)


def SymMsg(prefix, s):
    return mkstr([ord(c) for c in prefix + "'"] + list(lift(s).cs) + [39])


# ------------------------------------------------------------------ characters
# A character is an int (known code point) or a z3 Int expression.
def _tc(c):
    """truth of a bool or z3 condition"""
    if c is True or c is False:
        return c
    return cur().branch(c)


def _eqc(a, b):
    if type(a) is int:
        if type(b) is int:
            return a == b
        a, b = b, a
    elif a is b or (type(b) is not int and a.eq(b)):
        return True
    return a == b


def _ge(a, k):
    return a >= k


def _range(c, lo, hi):
    if type(c) is int:
        return lo <= c <= hi
    return z3.And(c >= lo, c <= hi)


_codes_cache = {}


def _in_codes(c, codes):
    """c is one of the code points (a set/tuple), as merged range tests."""
    if type(c) is int:
        return c in codes
    rs = _codes_cache.get(codes)
    if rs is None:
        rs = []
        for k in sorted(codes):
            if rs and rs[-1][1] == k - 1:
                rs[-1][1] = k
            else:
                rs.append([k, k])
        _codes_cache[codes] = rs
    if not rs:
        return False
    es = [c == lo if lo == hi else z3.And(c >= lo, c <= hi) for lo, hi in rs]
    return es[0] if len(es) == 1 else z3.Or(es)


UNIVERSE = tuple(range(0x300)) + (0x17F, 0x1E9E, 0x2007, 0x2028, 0x2029, 0x201C, 0x201D,
                                  0x212A, 0x3000, 0xFF21, 0x1F600)
UNIVERSE = tuple(sorted(set(UNIVERSE)))
_pred_cache = {}


def pred_codes(name, ascii_only):
    k = (name, ascii_only)
    r = _pred_cache.get(k)
    if r is None:
        u = range(128) if ascii_only else UNIVERSE
        if callable(name):
            r = tuple(c for c in u if name(chr(c)))
        else:
            r = tuple(c for c in u if getattr(chr(c), name)())
        _pred_cache[k] = r
    return r


def _pred(c, name):
    return _in_codes(c, pred_codes(name, not cur().nonascii))


def _upper_delta(c):
    return _case(c, 97, 122, -32, "upper")


def _lower_delta(c):
    return _case(c, 65, 90, 32, "lower")


def _case(c, lo, hi, d, name):
    """list of characters c maps to"""
    if type(c) is int:
        return [ord(x) for x in getattr(chr(c), name)()]
    eng = cur()
    if eng.nonascii and eng.branch(c >= 128):
        v = eng.concretize_expr(c)
        return [ord(x) for x in getattr(chr(v), name)()]
    # keep the term simple where the path already knows the case
    key = ("case", name, c.get_id())
    hit = eng.cache.get(key)
    if hit is None:
        hit = z3.If(z3.And(c >= lo, c <= hi), c + d, c)
        eng.cache[key] = hit
        eng.alive.append(c)
    return [hit]


# ------------------------------------------------------------------ strings
def piecewise(e, tab):
    """The value that `tab` has at the term `e` (known to be one of its keys), by affine runs."""
    runs = []
    for k in sorted(tab):
        if runs and runs[-1][1] == k - 1 and tab[k] - k == runs[-1][2]:
            runs[-1][1] = k
        else:
            runs.append([k, k, tab[k] - k])
    r = e + runs[-1][2]
    for lo, hi, d in reversed(runs[:-1]):
        r = z3.If(e <= hi, e + d, r)
    return r


def mkstr(cs):
    for c in cs:
        if type(c) is not int:
            return SymStr(tuple(cs))
    return "".join(map(chr, cs))


def lift(s):
    """Any str as SymStr (also when fully known)."""
    if type(s) in SSTR:
        return s
    if isinstance(s, str):
        inner = getattr(s, "_symx_str", None)
        if inner is not None:
            return lift(inner)
        return SymStr(tuple(map(ord, s)))
    return None


def lift_or_type_error(s, what="str"):
    r = lift(s)
    if r is None:
        raise TypeError("must be str, not %s" % type(s).__name__)
    return r


def _seq_eq(a, b):
    """bool or z3 condition for equality of two equal-length char tuples"""
    es = []
    for x, y in zip(a, b):
        c = _eqc(x, y)
        if c is False:
            return False
        if c is not True:
            es.append(c)
    if not es:
        return True
    return es[0] if len(es) == 1 else z3.And(es)


ENCODED = None   # what stands for encoded texts, if a harness says so: ENCODED(text, encoding)


class SymStr:
    __slots__ = ("cs",)

    def __init__(self, cs):
        self.cs = cs

    @property
    def __class__(self):
        return str

    # -- basics
    def __len__(self):
        return len(self.cs)

    def __bool__(self):
        return bool(self.cs)

    def __iter__(self):
        for c in self.cs:
            yield mkstr((c,))

    def __reversed__(self):
        for c in reversed(self.cs):
            yield mkstr((c,))

    def __getitem__(self, i):
        if type(i) is slice:
            i = slice(*(None if x is None else x.__index__() for x in (i.start, i.stop, i.step)))
            return mkstr(self.cs[i])
        try:
            return mkstr((self.cs[i.__index__()],))
        except IndexError:
            raise IndexError("string index out of range")
        except AttributeError:
            raise TypeError("string indices must be integers, not %r" % type(i).__name__)

    def __add__(self, o):
        o = lift(o)
        if o is None:
            return NotImplemented
        return mkstr(self.cs + o.cs)

    def __radd__(self, o):
        o = lift(o)
        if o is None:
            return NotImplemented
        return mkstr(o.cs + self.cs)

    def __mul__(self, n):
        return mkstr(self.cs * n.__index__())

    __rmul__ = __mul__

    def __mod__(self, args):
        from .models import percent_format

        return percent_format(self, args)

    def __rmod__(self, o):
        if isinstance(o, str):
            from .models import percent_format

            return percent_format(o, self)
        return NotImplemented

    def eqcond(self, o):
        o = lift(o)
        if o is None:
            return None
        if len(o.cs) != len(self.cs):
            return False
        return _seq_eq(self.cs, o.cs)

    def __eq__(self, o):
        c = self.eqcond(o)
        if c is None:
            return NotImplemented
        return mkbool(c)

    def __ne__(self, o):
        c = self.eqcond(o)
        if c is None:
            return NotImplemented
        return not_(mkbool(c))

    def _lt(self, o, orequal):
        o = lift(o)
        if o is None:
            return NotImplemented
        for x, y in zip(self.cs, o.cs):
            if _tc(_eqc(x, y)):
                continue
            return _tc(x < y)
        if len(self.cs) == len(o.cs):
            return orequal
        return len(self.cs) < len(o.cs)

    def __lt__(self, o):
        return self._lt(o, False)

    def __le__(self, o):
        return self._lt(o, True)

    def __gt__(self, o):
        r = self._lt(o, True)
        return r if r is NotImplemented else not r

    def __ge__(self, o):
        r = self._lt(o, False)
        return r if r is NotImplemented else not r

    def __contains__(self, o):
        return self.find(lift_or_type_error(o)) >= 0

    def __hash__(self):
        return hash(conc(self))

    def __str__(self):
        return opaque()

    __repr__ = __str__

    def __format__(self, spec):
        return opaque()

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __getattr__(self, name):
        # not modelled: fix the value (forking over all of them) and use the real method
        if not hasattr(str, name):
            raise AttributeError("'str' object has no attribute %r" % name)
        return getattr(conc(self), name)

    def encode(self, encoding="utf-8", errors="strict"):
        return (ENCODED or (lambda *a: conc(self).encode(encoding, errors)))(self, encoding)

    # -- case
    def upper(self):
        return mkstr([y for c in self.cs for y in _upper_delta(c)])

    def lower(self):
        return mkstr([y for c in self.cs for y in _lower_delta(c)])

    def casefold(self):
        if cur().nonascii:
            return conc(self).casefold()
        return self.lower()

    def swapcase(self):
        if cur().nonascii:
            return conc(self).swapcase()
        r = []
        for c in self.cs:
            if type(c) is int:
                r += map(ord, chr(c).swapcase())
            else:
                r.append(z3.If(z3.And(c >= 97, c <= 122), c - 32,
                               z3.If(z3.And(c >= 65, c <= 90), c + 32, c)))
        return mkstr(r)

    def capitalize(self):
        return mkstr(list(lift(self[:1].upper()).cs) + list(lift(self[1:].lower()).cs))

    def title(self):
        r, prev = [], False
        for c in self.cs:
            if _tc(_pred(c, "isalpha")):
                r += _lower_delta(c) if prev else _upper_delta(c)
                prev = True
            else:
                r.append(c)
                prev = False
        return mkstr(r)

    # -- predicates
    def _all(self, name):
        if not self.cs:
            return False
        return and_all([mkbool(_pred(c, name)) for c in self.cs])

    def isdigit(self):
        return self._all("isdigit")

    def isdecimal(self):
        return self._all("isdecimal")

    def isnumeric(self):
        return self._all("isnumeric")

    def isalpha(self):
        return self._all("isalpha")

    def isalnum(self):
        return self._all("isalnum")

    def isspace(self):
        return self._all("isspace")

    def isascii(self):
        return and_all([mkbool(_range(c, 0, 127)) for c in self.cs])

    def isprintable(self):
        return and_all([mkbool(_pred(c, "isprintable")) for c in self.cs])

    def isupper(self):
        return _casing(self, "isupper", "islower")

    def islower(self):
        return _casing(self, "islower", "isupper")

    # -- strip
    def _stripset(self, chars):
        if chars is None:
            return lambda c: _tc(_pred(c, "isspace"))
        chars = lift_or_type_error(chars).cs
        if all(type(x) is int for x in chars):
            codes = tuple(sorted(set(chars)))
            return lambda c: _tc(_in_codes(c, codes))
        return lambda c: any(_tc(_eqc(c, x)) for x in chars)

    def lstrip(self, chars=None):
        f = self._stripset(chars)
        i = 0
        while i < len(self.cs) and f(self.cs[i]):
            i += 1
        return mkstr(self.cs[i:])

    def rstrip(self, chars=None):
        f = self._stripset(chars)
        i = len(self.cs)
        while i > 0 and f(self.cs[i - 1]):
            i -= 1
        return mkstr(self.cs[:i])

    def strip(self, chars=None):
        s = self.lstrip(chars)
        return s.rstrip(chars) if type(s) in SSTR else s.strip(chars) if chars is None or type(
            chars) is str else SymStr(tuple(map(ord, s))).rstrip(chars)

    # -- search
    def _char_index(self, sub, a, b, last):
        """Position of one unknown character in a known text: one fork and a term, or None."""
        if len(sub) != 1 or type(sub[0]) is int or b - a < 3 or not all([type(c) is int for c in self.cs[a:b]]):
            return None
        tab = {}
        for i in range(a, b):
            if last or self.cs[i] not in tab:
                tab[self.cs[i]] = i
        if not _tc(_in_codes(sub[0], tuple(sorted(tab)))):
            return -1
        return mkint(piecewise(sub[0], tab))

    def _matches_at(self, sub, i):
        if i + len(sub) > len(self.cs):
            return False
        return _seq_eq(self.cs[i:i + len(sub)], sub)

    @staticmethod
    def _bounds(n, start, end):
        return slice(None if start is None else start.__index__(),
                     None if end is None else end.__index__()).indices(n)[:2]

    def find(self, sub, start=None, end=None):
        sub = lift_or_type_error(sub).cs
        n = len(self.cs)
        if start is not None and start > n:
            return -1
        a, b = self._bounds(n, start, end)
        r = self._char_index(sub, a, b, False)
        if r is not None:
            return r
        for i in range(a, b - len(sub) + 1):
            if _tc(self._matches_at(sub, i)):
                return i
        return -1

    def rfind(self, sub, start=None, end=None):
        sub = lift_or_type_error(sub).cs
        n = len(self.cs)
        if start is not None and start > n:
            return -1
        a, b = self._bounds(n, start, end)
        r = self._char_index(sub, a, b, True)
        if r is not None:
            return r
        for i in range(b - len(sub), a - 1, -1):
            if _tc(self._matches_at(sub, i)):
                return i
        return -1

    def index(self, *a):
        i = self.find(*a)
        if i < 0:
            raise ValueError("substring not found")
        return i

    def rindex(self, *a):
        i = self.rfind(*a)
        if i < 0:
            raise ValueError("substring not found")
        return i

    def count(self, sub, start=None, end=None):
        sub = lift_or_type_error(sub).cs
        a, b = self._bounds(len(self.cs), start, end)
        if not sub:
            return b - a + 1 if b >= a else 0
        n, i = 0, a
        while i <= b - len(sub):
            if _tc(self._matches_at(sub, i)):
                n += 1
                i += len(sub)
            else:
                i += 1
        return n

    def startswith(self, pre, start=None, end=None):
        if type(pre) is tuple:
            return or_any([self.startswith(p, start, end) for p in pre])
        pre = lift_or_type_error(pre).cs
        a, b = self._bounds(len(self.cs), start, end)
        if b - a < len(pre) or a > len(self.cs):
            return False
        return mkbool(_seq_eq(self.cs[a:a + len(pre)], pre))

    def endswith(self, suf, start=None, end=None):
        if type(suf) is tuple:
            return or_any([self.endswith(p, start, end) for p in suf])
        suf = lift_or_type_error(suf).cs
        a, b = self._bounds(len(self.cs), start, end)
        if b - a < len(suf):
            return False
        return mkbool(_seq_eq(self.cs[b - len(suf):b], suf))

    def removeprefix(self, p):
        return self[len(p):] if len(p) and self.startswith(p) else self

    def removesuffix(self, p):
        return self[:len(self) - len(p)] if len(p) and self.endswith(p) else self

    # -- split / join
    def split(self, sep=None, maxsplit=-1):
        maxsplit = maxsplit.__index__()
        out, i, n = [], 0, len(self.cs)
        if sep is None:
            while True:
                while i < n and _tc(_pred(self.cs[i], "isspace")):
                    i += 1
                if i >= n:
                    break
                if maxsplit == 0:
                    rest = self[i:].rstrip()
                    out.append(rest)
                    break
                j = i
                while j < n and not _tc(_pred(self.cs[j], "isspace")):
                    j += 1
                out.append(mkstr(self.cs[i:j]))
                maxsplit -= 1
                i = j
            return out
        sep = lift_or_type_error(sep).cs
        if not sep:
            raise ValueError("empty separator")
        last = 0
        while i <= n - len(sep) and maxsplit != 0:
            if _tc(self._matches_at(sep, i)):
                out.append(mkstr(self.cs[last:i]))
                i += len(sep)
                last = i
                maxsplit -= 1
            else:
                i += 1
        out.append(mkstr(self.cs[last:]))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        maxsplit = maxsplit.__index__()
        if maxsplit < 0:
            return self.split(sep)
        if sep is None:
            return conc(self).rsplit(sep, maxsplit)
        sep = lift_or_type_error(sep).cs
        if not sep:
            raise ValueError("empty separator")
        out, i, last = [], len(self.cs) - len(sep), len(self.cs)
        while i >= 0 and maxsplit != 0:
            if _tc(self._matches_at(sep, i)):
                out.append(mkstr(self.cs[i + len(sep):last]))
                last = i
                i -= len(sep)
                maxsplit -= 1
            else:
                i -= 1
        out.append(mkstr(self.cs[:last]))
        return out[::-1]

    def partition(self, sep):
        i = self.find(sep)
        if i < 0:
            return (self, "", "")
        return (self[:i], self[i:i + len(sep)], self[i + len(sep):])

    def rpartition(self, sep):
        i = self.rfind(sep)
        if i < 0:
            return ("", "", self)
        return (self[:i], self[i:i + len(sep)], self[i + len(sep):])

    def splitlines(self, keepends=False):
        out, i, n = [], 0, len(self.cs)
        brk = (10, 11, 12, 13, 28, 29, 30, 133, 0x2028, 0x2029)
        last = 0
        while i < n:
            if _tc(_in_codes(self.cs[i], brk)):
                j = i + 1
                if _tc(_eqc(self.cs[i], 13)) and j < n and _tc(_eqc(self.cs[j], 10)):
                    j += 1
                out.append(mkstr(self.cs[last:j if keepends else i]))
                last = i = j
            else:
                i += 1
        if last < n:
            out.append(mkstr(self.cs[last:]))
        return out

    def join(self, items):
        out = []
        first = True
        for k, it in enumerate(items):
            s = lift(it)
            if s is None:
                raise TypeError("sequence item %d: expected str instance, %s found"
                                % (k, type(it).__name__))
            if not first:
                out += self.cs
            out += s.cs
            first = False
        return mkstr(out)

    def replace(self, old, new, count=-1):
        old = lift_or_type_error(old).cs
        new = lift_or_type_error(new).cs
        count = count.__index__()
        out, i, n = [], 0, len(self.cs)
        if not old:
            for c in self.cs:
                if count != 0:
                    out += new
                    count -= 1
                out.append(c)
            if count != 0:
                out += new
            return mkstr(out)
        while i < n:
            if count != 0 and _tc(self._matches_at(old, i)):
                out += new
                i += len(old)
                count -= 1
            else:
                out.append(self.cs[i])
                i += 1
        return mkstr(out)

    def translate(self, table):
        out = []
        if not isinstance(table, dict):
            return conc(self).translate(table)
        for c in self.cs:
            if type(c) is int:
                out += map(ord, chr(c).translate(table))
                continue
            for k, v in table.items():
                if not cur().nonascii and k > 127:
                    continue
                if _tc(_eqc(c, k)):
                    if v is None:
                        pass
                    elif type(v) is int:
                        out.append(v)
                    else:
                        out += map(ord, v)
                    break
            else:
                out.append(c)
        return mkstr(out)

    # -- padding
    def _pad(self, width, fill, left, right):
        f = lift(fill).cs
        return mkstr(f * left + self.cs + f * right)

    def ljust(self, width, fill=" "):
        return self._pad(width, fill, 0, max(0, width.__index__() - len(self.cs)))

    def rjust(self, width, fill=" "):
        return self._pad(width, fill, max(0, width.__index__() - len(self.cs)), 0)

    def zfill(self, width):
        n = max(0, width.__index__() - len(self.cs))
        if self.cs and _tc(_in_codes(self.cs[0], (43, 45))):
            return mkstr((self.cs[0],) + (48,) * n + self.cs[1:])
        return mkstr((48,) * n + self.cs)

    def format(self, *a, **k):
        from .models import str_format

        return str_format(self, a, k)


def _casing(s, name, other):
    anyc = or_any([mkbool(_pred(c, name)) for c in s.cs])
    bad = or_any([mkbool(_in_codes(c, tuple(
        k for k in pred_codes(lambda x: True, not cur().nonascii)
        if getattr(chr(k), other)() or chr(k).istitle() and not getattr(chr(k), name)()
        ))) for c in s.cs])
    return and_all([anyc, not_(bad)])


# ------------------------------------------------------------------ concretisation
SYM = {SymBool, SymInt, SymStr}
SSTR = {SymStr}


class StrBase(SymStr):
    """Stands for `str` as the base of the classes of the code under test."""

    def __init_subclass__(cls, **k):
        super(StrBase, cls).__init_subclass__(**k)
        SYM.add(cls)
        SSTR.add(cls)

    def __init__(self, *a, **k):
        pass

    @staticmethod
    def make(cls, text=""):
        o = object.__new__(cls)
        SymStr.cs.__set__(o, lift(text).cs)
        return o

    def __bool__(self):
        return bool(self.cs)

    def __deepcopy__(self, memo):
        raise NotImplementedError("deep copy of a text of a class")

    __copy__ = __deepcopy__


def conc(o):
    """Fix a symbolic value (shallow) to one concrete value on this path."""
    t = type(o)
    if t is SymBool:
        return bool(o)
    if t is SymInt:
        return o.__index__()
    if t in SSTR:
        eng = cur()
        return "".join(chr(c if type(c) is int else eng.concretize_expr(c)) for c in o.cs)
    f = CONC.get(t)
    if f is not None:
        return f(o)
    return o


CONC = {}


def conc_deep(o, depth=4):
    if type(o) in SYM:
        return conc(o)
    if depth:
        t = type(o)
        if t is list:
            return [conc_deep(x, depth - 1) for x in o]
        if t is tuple:
            return tuple(conc_deep(x, depth - 1) for x in o)
        if t is dict:
            return {k: conc_deep(v, depth - 1) for k, v in o.items()}
        if isinstance(o, tuple) and hasattr(t, "_make"):
            return t._make(conc_deep(x, depth - 1) for x in o)
    return o


def has_sym(o, depth=3):
    t = type(o)
    if t in SYM:
        return True
    if depth:
        if t is list or t is tuple:
            for x in o:
                if has_sym(x, depth - 1):
                    return True
        elif t is dict:
            for x in o.values():
                if has_sym(x, depth - 1):
                    return True
        elif isinstance(o, tuple):
            for x in o:
                if has_sym(x, depth - 1):
                    return True
    return False


def eval_model(o, model):
    """Value of a (possibly symbolic) object under a z3 model."""
    t = type(o)
    if t is SymBool:
        return z3.is_true(model.eval(o.e, model_completion=True))
    if t is SymInt:
        return model.eval(o.e, model_completion=True).as_long()
    if t in SSTR:
        return "".join(
            chr(c if type(c) is int else model.eval(c, model_completion=True).as_long())
            for c in o.cs)
    f = EVAL.get(t)
    if f is not None:
        return f(o, model)
    if t is list:
        return [eval_model(x, model) for x in o]
    if t is tuple:
        return tuple(eval_model(x, model) for x in o)
    if isinstance(o, tuple):
        return tuple(eval_model(x, model) for x in o)
    if isinstance(o, dict):
        return {eval_model(k, model): eval_model(v, model) for k, v in o.items()}
    if isinstance(o, str) and getattr(o, "_symx_str", None) is not None:
        return eval_model(o._symx_str, model)
    return o


EVAL = {}
