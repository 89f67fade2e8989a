"""IEEE doubles as z3 floating-point terms; int(double) kept exactly as an integral double."""
import math
import struct

from . import models as M
from . import values as V
from .engine import PathAbort, simplify, z3
from .values import SymBool, SymInt, cur, mkbool

F64 = z3.Float64()
RNE, RTZ = z3.RNE(), z3.RTZ()


def fpval(x):
    x = float(x)
    b = struct.unpack("<Q", struct.pack("<d", x))[0]
    return z3.fpBVToFP(z3.BitVecVal(b, 64), F64)


def of_bits(b):
    return struct.unpack("<d", struct.pack("<Q", b))[0]


def fresh_float(name):
    return SymFloat(z3.fpBVToFP(z3.BitVec(name, 64), F64))


def evalfp(e, model):
    v = z3.simplify(z3.fpToIEEEBV(model.eval(e, model_completion=True)))
    if not z3.is_bv_value(v):  # nan has no unique pattern
        return float("nan")
    return of_bits(v.as_long())


def _conc(e):
    eng = cur()
    if eng.branch(z3.fpIsNaN(e)):
        return float("nan")
    M._gap(float)
    return of_bits(eng.concretize_expr(z3.fpToIEEEBV(e)))


def _exact(i):
    try:
        f = float(i)
    except OverflowError:
        return None
    return f if int(f) == i else None


def fexpr(o):
    """FP term of an operand exactly equal to it, or None."""
    t = type(o)
    if t in (SymFloat, SymFloatInt):
        return o.e
    if t is float or hasattr(o, "dtype") and getattr(o, "shape", None) == () and o.dtype.kind == "f":
        return fpval(o)
    if t is bool or t is int:
        f = _exact(o)
        return None if f is None else fpval(f)
    if t is SymBool:
        return z3.If(o.e, fpval(1.0), fpval(0.0))
    if t is SymInt:
        return fexpr(o.__index__())
    return None


def _num(o):
    return isinstance(o, (int, float))


class _Num:
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __hash__(self):
        return hash(V.conc(self))

    def _cmp(self, o, f, name):
        if not _num(o):
            return NotImplemented
        b = fexpr(o)
        if b is None:
            return getattr(V.conc(self), name)(o)
        return mkbool(simplify(f(self.e, b)))

    def __eq__(self, o):
        return self._cmp(o, z3.fpEQ, "__eq__")

    def __ne__(self, o):
        return self._cmp(o, lambda a, b: z3.Not(z3.fpEQ(a, b)), "__ne__")

    def __lt__(self, o):
        return self._cmp(o, z3.fpLT, "__lt__")

    def __le__(self, o):
        return self._cmp(o, z3.fpLEQ, "__le__")

    def __gt__(self, o):
        return self._cmp(o, z3.fpGT, "__gt__")

    def __ge__(self, o):
        return self._cmp(o, z3.fpGEQ, "__ge__")

    def __bool__(self):
        return cur().branch(z3.Not(z3.fpIsZero(self.e)))

    def _arith(self, o, f, name, swap=False):
        if not _num(o):
            return NotImplemented
        if isinstance(self, int) and isinstance(o, int):  # unbounded integers
            return getattr(V.conc(self), name)(V.conc(o))
        b = fexpr(o)
        if b is None:
            return getattr(V.conc(self), name)(V.conc(o))
        a = self.e
        if swap:
            a, b = b, a
        return SymFloat(f(a, b))

    def __add__(self, o):
        return self._arith(o, lambda a, b: z3.fpAdd(RNE, a, b), "__add__")

    def __radd__(self, o):
        return self._arith(o, lambda a, b: z3.fpAdd(RNE, a, b), "__radd__", True)

    def __sub__(self, o):
        return self._arith(o, lambda a, b: z3.fpSub(RNE, a, b), "__sub__")

    def __rsub__(self, o):
        return self._arith(o, lambda a, b: z3.fpSub(RNE, a, b), "__rsub__", True)

    def __mul__(self, o):
        return self._arith(o, lambda a, b: z3.fpMul(RNE, a, b), "__mul__")

    def __rmul__(self, o):
        return self._arith(o, lambda a, b: z3.fpMul(RNE, a, b), "__rmul__", True)

    def __truediv__(self, o):
        if _num(o) and o == 0:
            raise ZeroDivisionError("float division by zero")
        return self._arith(o, lambda a, b: z3.fpDiv(RNE, a, b), "__truediv__")

    def __mod__(self, o):
        if _num(o) and not isinstance(o, _Num) and o == 1 and not isinstance(self, int):
            # python: result has the sign of the divisor
            r = z3.fpSub(RNE, self.e, z3.fpRoundToIntegral(RTZ, self.e))
            r = z3.If(z3.fpIsInf(self.e), fpval(float("nan")), r)
            return SymFloat(z3.If(z3.fpLT(r, fpval(0.0)), z3.fpAdd(RNE, r, fpval(1.0)), r))
        return V.conc(self) % V.conc(o)

    def __floordiv__(self, o):
        if _num(o) and not isinstance(o, _Num) and o == 1 and not isinstance(self, int):
            return SymFloat(z3.fpRoundToIntegral(z3.RTN(), self.e))
        return V.conc(self) // V.conc(o)

    def __rtruediv__(self, o):
        return V.conc(o) / V.conc(self)

    def __divmod__(self, o):
        return self // o, self % o

    def __pow__(self, o):
        return V.conc(self) ** V.conc(o)

    def __neg__(self):
        return type(self)(z3.fpNeg(self.e))

    def __pos__(self):
        return self

    def __abs__(self):
        return type(self)(z3.fpAbs(self.e))

    def __repr__(self):
        return V.opaque()

    __str__ = __repr__

    def __format__(self, spec):
        return V.opaque()

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __getattr__(self, name):
        if name.startswith("__") or not hasattr(self.__class__, name):
            raise AttributeError("%r object has no attribute %r" % (self.__class__.__name__, name))
        return getattr(V.conc(self), name)


class SymFloatInt(_Num):
    """int(some finite double): exactly an integral double."""

    @property
    def __class__(self):
        return int

    def __int__(self):
        return int(_conc(self.e))

    __index__ = __trunc__ = __int__

    def __float__(self):
        return _conc(self.e)

    def __round__(self, n=None):
        return self if n is None else round(V.conc(self), n)

    __floor__ = __ceil__ = lambda self: self

    def is_integer(self):
        return True


def to_int(x, rm):
    """int/floor/ceil/round to an exact integer, or the CPython errors."""
    eng = cur()
    if eng.branch(z3.fpIsNaN(x.e)):
        raise ValueError("cannot convert float NaN to integer")
    if eng.branch(z3.fpIsInf(x.e)):
        raise OverflowError("cannot convert float infinity to integer")
    # -0.0 becomes 0
    r = z3.fpRoundToIntegral(rm, x.e)
    return SymFloatInt(z3.If(z3.fpIsZero(r), fpval(0.0), r))


class SymFloat(_Num):
    @property
    def __class__(self):
        return float

    def __float__(self):
        return _conc(self.e)

    def __int__(self):
        return int(_conc(self.e))

    def __trunc__(self):
        return to_int(self, RTZ)

    def __floor__(self):
        return to_int(self, z3.RTN())

    def __ceil__(self):
        return to_int(self, z3.RTP())

    def __round__(self, n=None):
        return to_int(self, RNE) if n is None else round(V.conc(self), n)

    def is_integer(self):
        return mkbool(z3.And(z3.Not(z3.fpIsInf(self.e)), z3.fpEQ(self.e, z3.fpRoundToIntegral(RTZ, self.e))))


for _t in (SymFloat, SymFloatInt):
    V.SYM.add(_t)
    V.CONC[_t] = lambda o: _conc(o.e) if type(o) is SymFloat else int(_conc(o.e))
    V.EVAL[_t] = lambda o, m: evalfp(o.e, m) if type(o) is SymFloat else int(evalfp(o.e, m))
M.CLASS_OF[SymFloat] = float
M.CLASS_OF[SymFloatInt] = int
M.INT_MODEL[SymFloat] = lambda o: to_int(o, RTZ)
M.INT_MODEL[SymFloatInt] = lambda o: o
M.FLOAT_MODEL[SymFloat] = lambda o: o
M.FLOAT_MODEL[SymFloatInt] = lambda o: SymFloat(o.e)


def _m1(real, f):
    M.FUNC_MODELS[real] = lambda x: f(x) if type(x) in (SymFloat, SymFloatInt) else real(V.conc(x))


for _f, _g in ((math.isnan, lambda x: mkbool(z3.fpIsNaN(x.e))),
               (math.isinf, lambda x: mkbool(z3.fpIsInf(x.e))),
               (math.isfinite, lambda x: mkbool(z3.Not(z3.Or(z3.fpIsNaN(x.e), z3.fpIsInf(x.e))))),
               (math.floor, lambda x: x.__floor__()), (math.ceil, lambda x: x.__ceil__()),
               (math.trunc, lambda x: x.__trunc__()), (round, lambda x: x.__round__()),
               (math.fabs, lambda x: SymFloat(z3.fpAbs(x.e)))):
    _m1(_f, _g)


def _modf(x):
    i = SymFloat(z3.fpRoundToIntegral(RTZ, x.e))
    return SymFloat(z3.If(z3.fpIsInf(x.e), fpval(0.0), z3.fpSub(RNE, x.e, i.e))), i


_m1(math.modf, _modf)


def _round(x, n=None):
    if type(x) in (SymFloat, SymFloatInt):
        return x.__round__(n)
    return round(V.conc(x)) if n is None else round(V.conc(x), V.conc(n))


M.FUNC_MODELS[round] = _round


def _isclose(a, b, rel_tol=1e-09, abs_tol=0.0):
    if a == b:
        return True
    if M.call(math.isinf, a) if type(a) in V.SYM else math.isinf(a):
        return False
    if M.call(math.isinf, b) if type(b) in V.SYM else math.isinf(b):
        return False
    d = abs(M.m_float(b) - M.m_float(a))
    return d <= abs(rel_tol * b) or d <= abs(rel_tol * a) or d <= abs_tol


M.FUNC_MODELS[math.isclose] = _isclose
