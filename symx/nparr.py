"""Matrices of symbolic booleans/ints: an object ndarray that merges reductions into one term.

Views, slicing, transposition and iteration are numpy's own.  Reductions (any, all, nonzero,
min, max, sum, where, ...) build one term; everything else fixes the elements by forking and
hands a real array of the native dtype to numpy.
"""
import numpy as np

from . import models as M
from . import values as V
from .values import SYM, SymBool, SymInt, and_all, conc, ite, mkint, not_, or_any, z3

_KINDS = {"b": bool, "i": int, "o": object}


def _truth(x):
    """Truth of an element as bool/SymBool, without forking."""
    if type(x) is SymInt:
        return V.mkbool(x.e != 0)
    if type(x) is SymBool:
        return x
    return bool(x)


def _obj(nested_or_arr, shape=None):
    a = np.empty(shape, dtype=object)
    flat = a.reshape(-1)
    for i, x in enumerate(nested_or_arr):
        flat[i] = x
    return a


def wrap(flat, shape, kind):
    a = _obj(flat, shape).view(SymArray)
    a.kind = kind
    if not any(type(x) in SYM for x in a._flat()):
        if kind == "o":
            return a.view(np.ndarray)
        return np.array([_KINDS[kind](x) for x in a._flat()], dtype=_KINDS[kind]).reshape(shape)
    return a


class SymArray(np.ndarray):
    kind = "b"

    def __array_finalize__(self, o):
        self.kind = getattr(o, "kind", "b")

    def _flat(self):
        return list(np.ndarray.flatten(self.view(np.ndarray)))

    def _concrete(self):
        """The real array on this path (forks over every undetermined element)."""
        vals = [conc(x) for x in self._flat()]
        if self.kind == "o":
            return _obj(vals, self.shape)
        return np.array(vals, dtype=_KINDS[self.kind]).reshape(self.shape)

    # element access keeps symbolic elements; a view stays a SymArray
    def __getitem__(self, k):
        if isinstance(k, tuple):
            k = tuple(conc(x) if type(x) in SYM else x for x in k)
            if type(k) is not tuple:
                k = tuple(k)
        elif type(k) in SYM:
            k = conc(k)
        elif isinstance(k, SymArray):
            k = k._concrete()
        elif isinstance(k, LazyIdx):
            k = k._real()
        return super().__getitem__(k)

    def __bool__(self):
        if self.size == 1:
            return bool(self._flat()[0])
        return bool(np.ndarray.__bool__(self))

    def _axes(self, axis):
        """Lists of elements along `axis` and the remaining shape."""
        if axis is None:
            return [self._flat()], None
        axis = axis % self.ndim
        a = np.moveaxis(self.view(np.ndarray), axis, -1)
        shape = a.shape[:-1]
        return [list(r) for r in a.reshape(-1, self.shape[axis])], shape

    def _reduce(self, f, axis, kind):
        rows, shape = self._axes(axis)
        out = [f(r) for r in rows]
        return out[0] if shape is None else wrap(out, shape, kind) if shape else out[0]

    def any(self, axis=None, **k):
        if k or self.kind == "o":
            return self._concrete().any(axis=axis, **k)
        return self._reduce(lambda r: or_any([_truth(x) for x in r]), axis, "b")

    def all(self, axis=None, **k):
        if k or self.kind == "o":
            return self._concrete().all(axis=axis, **k)
        return self._reduce(lambda r: and_all([_truth(x) for x in r]), axis, "b")

    def sum(self, axis=None, **k):
        if k or self.kind == "o":
            return self._concrete().sum(axis=axis, **k)

        def f(r):
            s = 0
            for x in r:
                s = s + ite(_truth(x), 1, 0) if self.kind == "b" else s + x
            return s
        return self._reduce(f, axis, "i")

    def _ext(self, name, axis):
        def f(r):
            if not r:
                return getattr(np.array([]), name)()
            m = r[0]
            for x in r[1:]:
                m = ite(x > m if name == "max" else x < m, x, m)
            return m
        return self._reduce(f, axis, self.kind)

    def min(self, axis=None, **k):
        return self._concrete().min(axis=axis, **k) if k or self.kind == "o" else self._ext("min", axis)

    def max(self, axis=None, **k):
        return self._concrete().max(axis=axis, **k) if k or self.kind == "o" else self._ext("max", axis)

    def argmax(self, axis=None, **k):
        if k or self.kind != "b":
            return self._concrete().argmax(axis=axis, **k)

        def f(r):
            m = 0
            for i in range(len(r) - 1, -1, -1):
                m = ite(_truth(r[i]), i, m)
            return m
        return self._reduce(f, axis, "i")

    def nonzero(self):
        return self._concrete().nonzero() if self.kind == "o" else LazyIdx.of(self)

    def astype(self, t, *a, **k):
        if a or k:
            return self._concrete().astype(t, *a, **k)
        kind = np.dtype(t).kind
        if kind == "O":
            return wrap(self._flat(), self.shape, "o")
        if self.kind == "o":
            return self._concrete().astype(t)
        if kind == "b":
            return wrap([_truth(x) for x in self._flat()], self.shape, "b")
        if kind in "iu":
            return wrap([ite(x, 1, 0) if self.kind == "b" else x for x in self._flat()], self.shape, "i")
        return self._concrete().astype(t)

    def copy(self, *a, **k):
        return wrap(self._flat(), self.shape, self.kind)

    def tolist(self):
        return self.view(np.ndarray).tolist()

    def item(self, *a):
        return self.view(np.ndarray).item(*a)

    def flatten(self, *a):
        return wrap(self._flat(), (self.size,), self.kind) if not a else self._concrete().flatten(*a)

    def sort(self, axis=-1, **k):
        c = self._concrete()
        c.sort(axis, **k)
        self.view(np.ndarray)[...] = c

    @property
    def dtype(self):
        return np.dtype(_KINDS[self.kind])

    def __invert__(self):
        return np.invert(self)

    def __array_ufunc__(self, ufunc, method, *ins, **kw):
        outs = kw.pop("out", None)
        if outs is not None:
            r = getattr(ufunc, method)(*ins, **kw)
            for o in outs:
                if o is not None:
                    if isinstance(o, SymArray):
                        o.view(np.ndarray)[...] = r.view(np.ndarray) if isinstance(r, SymArray) else r
                    else:
                        o[...] = _real(r)
            return outs[0] if len(outs) == 1 else outs
        ins = [_np_array(i) if type(i) in (list, tuple) else i for i in ins]
        if method == "__call__" and not kw and ufunc in (np.equal, np.not_equal) and any(
                _kind(i) == "o" for i in ins):
            arrs = np.broadcast_arrays(*[i.view(np.ndarray) if isinstance(i, np.ndarray) else _scalar(i) for i in ins])
            eq = [x == y if ufunc is np.equal else x != y for x, y in zip(*[list(a.flatten()) for a in arrs])]
            return wrap(eq, arrs[0].shape, "b")
        if method == "__call__" and not kw and ufunc in _UFUNCS:
            f, kind = _UFUNCS[ufunc]
            raw = [i.view(np.ndarray) if isinstance(i, SymArray) else i for i in ins]
            kinds = {_kind(i) for i in ins}
            if kinds <= {"b", "i"}:
                arrs = np.broadcast_arrays(*[x if isinstance(x, np.ndarray) else _scalar(x)
                                             for x in raw])
                g, k2 = (f, kind) if not callable(kind) else kind(kinds)
                return wrap([g(*xs) for xs in zip(*[list(a.flatten()) for a in arrs])],
                            arrs[0].shape, k2)
        if method == "reduce" and ufunc in (np.logical_or, np.logical_and) and not (
                set(kw) - {"axis"}) and len(ins) == 1:
            a = ins[0]
            return (a.any if ufunc is np.logical_or else a.all)(axis=kw.get("axis", 0))
        real = lambda i: i._concrete() if isinstance(i, SymArray) else i
        kw = {k: tuple(map(real, v)) if isinstance(v, tuple) else real(v) for k, v in kw.items()}
        return getattr(ufunc, method)(*map(real, ins), **kw)

    def __array_function__(self, func, types, args, kwargs):
        h = _FUNCS.get(func)
        if h is not None:
            r = h(*args, **kwargs)
            if r is not NotImplemented:
                return r
        return func(*_real(args), **_real(kwargs))


# views move elements only; every other method of ndarray works on the real array
_NATIVE = {"view", "reshape", "transpose", "ravel", "swapaxes", "squeeze", "diagonal"}


def _fixed(name):
    def f(self, *a, **k):
        return getattr(self._concrete(), name)(*_real(a), **_real(k))
    return f


for _n_ in dir(np.ndarray):
    if not _n_.startswith("_") and _n_ not in _NATIVE and _n_ not in SymArray.__dict__ and callable(
            getattr(np.ndarray, _n_)):
        setattr(SymArray, _n_, _fixed(_n_))


def _real(o):
    if isinstance(o, SymArray):
        return o._concrete()
    if isinstance(o, (LazyIdx, LazyRow)):
        return o._real()
    if type(o) in (list, tuple):
        return type(o)(map(_real, o))
    if type(o) is dict:
        return {k: _real(v) for k, v in o.items()}
    return o


def _scalar(x):
    a = np.empty((), dtype=object)
    a[()] = x
    return a


def _kind(i):
    if isinstance(i, SymArray):
        return i.kind
    if isinstance(i, np.ndarray) or isinstance(i, np.generic):
        return i.dtype.kind
    if isinstance(i, bool):
        return "b"
    if isinstance(i, int):
        return "i"
    return "?"


def _bit(fb, fi):
    def pick(kinds):
        return (fb, "b") if kinds == {"b"} else (fi, "i")
    return pick


def _arith(f):
    return lambda kinds: (f, "i")


def _nosub(kinds):
    if kinds == {"b"}:
        raise TypeError("numpy boolean subtract, the `-` operator, is not supported, use the "
                        "bitwise_xor, the `^` operator, or the logical_xor function instead.")
    return (lambda a, b: a - b), "i"


_t = _truth
_UFUNCS = {
    np.logical_not: (lambda a: not_(_t(a)), "b"),
    np.invert: (None, _bit(lambda a: not_(a), lambda a: ~a)),
    np.logical_and: (lambda a, b: and_all([_t(a), _t(b)]), "b"),
    np.logical_or: (lambda a, b: or_any([_t(a), _t(b)]), "b"),
    np.logical_xor: (lambda a, b: not_(_iff(_t(a), _t(b))), "b"),
    np.bitwise_and: (None, _bit(lambda a, b: and_all([a, b]), lambda a, b: a & b)),
    np.bitwise_or: (None, _bit(lambda a, b: or_any([a, b]), lambda a, b: a | b)),
    np.bitwise_xor: (None, _bit(lambda a, b: not_(_iff(a, b)), lambda a, b: a ^ b)),
    np.equal: (lambda a, b: _cmp(a, b, "=="), "b"),
    np.not_equal: (lambda a, b: not_(_cmp(a, b, "==")), "b"),
    np.less: (lambda a, b: _n(a) < _n(b), "b"), np.less_equal: (lambda a, b: _n(a) <= _n(b), "b"),
    np.greater: (lambda a, b: _n(a) > _n(b), "b"),
    np.greater_equal: (lambda a, b: _n(a) >= _n(b), "b"),
    np.subtract: (None, _nosub),
    np.add: (None, lambda kinds: ((lambda a, b: or_any([a, b])), "b") if kinds == {"b"} else (
        (lambda a, b: _n(a) + _n(b)), "i")),
    np.multiply: (None, lambda kinds: ((lambda a, b: and_all([a, b])), "b") if kinds == {"b"} else (
        (lambda a, b: _n(a) * _n(b)), "i")),
}


def _n(x):
    return ite(x, 1, 0) if type(x) in (SymBool, bool) else int(x) if isinstance(x, np.generic) else x


def _iff(a, b):
    r = a == b
    return r if type(r) is SymBool else bool(r)


def _cmp(a, b, op):
    r = _n(a) == _n(b)
    return r if type(r) is SymBool else bool(r)


# ------------------------------------------------------------------ nonzero / where
class LazyIdx:
    """Column `axis` of the index list of the non-zero elements, in row-major order."""

    def __init__(self, src, axis):
        self.src = src
        self.axis = axis

    @classmethod
    def of(cls, arr):
        conds = [(ix, _truth(arr.view(np.ndarray)[ix])) for ix in np.ndindex(arr.shape)]
        src = {"conds": conds, "arr": arr, "real": None}
        return tuple(cls(src, a) for a in range(arr.ndim))

    def _real(self):
        s = self.src
        if s["real"] is None:
            s["real"] = np.nonzero(s["arr"]._concrete() if isinstance(s["arr"], SymArray) else s["arr"])
        return s["real"][self.axis]

    def _opt(self, name):
        by = {}
        for ix, c in self.src["conds"]:
            by.setdefault(ix[self.axis], []).append(c)
        keys = sorted(by, reverse=name == "min")
        if not or_any([c for cs in by.values() for c in cs]):
            return getattr(np.array([], dtype=int), name)()
        r = keys[0]
        for k in keys[1:]:
            r = ite(or_any(by[k]), k, r)
        return r

    def min(self, axis=None, **k):
        return getattr(self._real(), "min")(axis, **k) if k else self._opt("min")

    def max(self, axis=None, **k):
        return getattr(self._real(), "max")(axis, **k) if k else self._opt("max")

    def _count(self):
        n = 0
        for _, c in self.src["conds"]:
            n = n + ite(c, 1, 0)
        return n

    @property
    def size(self):
        return self._count()

    @property
    def shape(self):
        return (self._count(),)

    def __bool__(self):
        return bool(self._real())

    def __len__(self):
        return conc(self._count())

    def __getitem__(self, k):
        if type(k) is int and k in (0, -1):
            if not or_any([c for _, c in self.src["conds"]]):
                raise IndexError("index %d is out of bounds for axis 0 with size 0" % k)
            conds = self.src["conds"] if k == -1 else self.src["conds"][::-1]
            r = conds[0][0][self.axis]
            for ix, c in conds[1:]:
                r = ite(c, ix[self.axis], r)
            return r
        return self._real()[k]

    def __iter__(self):
        return iter(self._real())

    def __array__(self, dtype=None, *a, **k):
        return np.array(self._real(), dtype=dtype)

    def __getattr__(self, name):
        if name.startswith("__array"):
            raise AttributeError(name)
        return getattr(self._real(), name)


for _op in ("add", "radd", "sub", "rsub", "mul", "rmul", "eq", "ne", "lt", "le", "gt", "ge", "neg"):
    setattr(LazyIdx, "__%s__" % _op,
            (lambda o: lambda self, *a: getattr(self._real(), "__%s__" % o)(*map(_real, a)))(_op))
LazyIdx.__hash__ = None


class LazyRow:
    """np.array of several LazyIdx (ndim x n) or its transpose."""

    def __init__(self, cols, transposed=False):
        self.cols = cols
        self.transposed = transposed

    @property
    def T(self):
        return LazyRow(self.cols, not self.transposed)

    def transpose(self, *a):
        return self.T if not a else self._real().transpose(*a)

    def _real(self):
        r = np.array([c._real() for c in self.cols])
        return r.T if self.transposed else r

    def _opt(self, name, axis, k):
        if k or axis is None or axis % 2 != (0 if self.transposed else 1):
            return getattr(self._real(), name)(axis, **k)
        return [getattr(c, name)() for c in self.cols]

    def min(self, axis=None, **k):
        return self._opt("min", axis, k)

    def max(self, axis=None, **k):
        return self._opt("max", axis, k)

    def __len__(self):
        return len(self.cols[0]) if self.transposed else len(self.cols)

    def __iter__(self):
        return iter(self._real() if self.transposed else self.cols)

    def __getitem__(self, k):
        if not self.transposed and type(k) is int:
            return self.cols[k]
        return self._real()[k]

    def __array__(self, dtype=None, *a, **k):
        return np.array(self._real(), dtype=dtype)

    def __getattr__(self, name):
        if name.startswith("__array"):
            raise AttributeError(name)
        return getattr(self._real(), name)


def _np_array(x, dtype=None, **k):
    """np.array/asarray of something symbolic."""
    if isinstance(x, (tuple, list)) and len(x) == 2 and all(isinstance(c, LazyIdx) for c in x) and not k:
        return LazyRow(list(x))
    if isinstance(x, LazyIdx):
        return np.array(x._real(), dtype=dtype, **k)
    if isinstance(x, SymArray):
        if dtype is None and not k:
            return x
        if dtype is not None and not k:
            return x.astype(dtype)
        return np.array(x._concrete(), dtype=dtype, **k)
    shape = _shape(x)
    if shape is not None and not k and (shape or type(x) in (SymInt, SymBool, V.SymStr)):
        flat = _leaves(x, len(shape))
        kind = None
        if not any(isinstance(v, (list, tuple, np.ndarray)) for v in flat):
            if dtype is not None:
                kind = {"O": "o", "b": "b", "i": "i"}.get(np.dtype(dtype).kind)
                if kind in ("b", "i") and not all(isinstance(v, (int, bool)) for v in flat):
                    kind = None
            elif all(isinstance(v, bool) for v in flat):
                kind = "b"
            elif all(isinstance(v, int) for v in flat):
                kind = "i"
            elif any(v is None for v in flat):
                kind = "o"
        if kind == "b":
            flat = [_truth(v) for v in flat]
        elif kind == "i":
            flat = [v._i() if type(v) is SymBool else v for v in flat]
        if kind:
            return wrap(flat, shape, kind)
    return np.array(_real(V.conc_deep(x)), dtype=dtype, **k)


def _shape(x):
    """Shape of rectangular nested sequences, None when ragged."""
    if not isinstance(x, (list, tuple)):
        return ()
    subs = [_shape(i) for i in x]
    if not subs or any(i is None or i != subs[0] for i in subs):
        return None
    return (len(subs),) + subs[0]


def _leaves(x, n):
    return [x] if n == 0 else list(x) if n == 1 else [v for i in x for v in _leaves(i, n - 1)]


def _where(c, *a):
    if a:
        return NotImplemented
    return c.nonzero() if isinstance(c, SymArray) else NotImplemented


def _diff(a, n=1, axis=-1):
    if not isinstance(a, SymArray) or n != 1 or a.ndim != 1:
        return NotImplemented
    if a.kind == "b":
        return a[1:] != a[:-1]
    return a[1:] - a[:-1]


def _m(name):
    def f(a, *args, **k):
        if not isinstance(a, SymArray):
            return NotImplemented
        return getattr(a, name)(*args, **k)
    return f


_FUNCS = {np.any: _m("any"), np.all: _m("all"), np.sum: _m("sum"), np.nonzero: _m("nonzero"),
          np.where: _where, np.diff: _diff, np.amin: _m("min"), np.amax: _m("max"),
          np.min: _m("min"), np.max: _m("max"), np.argmax: _m("argmax"), np.copy: _m("copy"),
          np.count_nonzero: lambda a, axis=None: a.astype(bool).sum(axis),
          np.flatnonzero: lambda a: a.flatten().nonzero()[0],
          np.argwhere: lambda a: LazyRow(list(a.nonzero()), True) if a.ndim == 2 else NotImplemented,
          np.transpose: lambda a, *x: a.transpose(*x)}


def _moving(func):
    """Functions that only move elements work on the symbolic ones as they are."""
    def f(*args, **kw):
        kinds = set()

        def raw(o):
            if isinstance(o, SymArray):
                kinds.add(o.kind)
                return o.view(np.ndarray)
            if isinstance(o, np.ndarray):
                kinds.add("o" if o.dtype.kind == "O" else o.dtype.kind)
                return o.astype(object)
            if isinstance(o, (LazyIdx, LazyRow)):
                kinds.add("?")
                return o
            if type(o) in (list, tuple):
                return type(o)([raw(x) for x in o])
            return conc(o) if type(o) in SYM else o

        def back(r):
            if isinstance(r, np.ndarray):
                r = r.view(SymArray)
                r.kind = kind
                return r
            return type(r)([back(x) for x in r]) if type(r) in (list, tuple) else r
        # the arrays come first; whatever follows are shapes, axes and indices
        head = raw(args[0])
        if len(kinds) != 1 or "?" in kinds or any(isinstance(a, SYM_ARR) for a in [*args[1:], *kw.values()]):
            return NotImplemented
        kind, = kinds
        return back(func(head, *args[1:], **kw))
    return f


for _f in ("squeeze ravel reshape expand_dims moveaxis rollaxis swapaxes flip fliplr flipud rot90 roll broadcast_to "
           "concatenate stack vstack hstack column_stack dstack tile repeat split array_split atleast_1d atleast_2d "
           "atleast_3d delete take").split():
    _FUNCS[getattr(np, _f)] = _moving(getattr(np, _f))


def bool_matrix(name, h, w):
    return wrap([SymBool(z3.Bool("%s!%d!%d" % (name, r, c))) for r in range(h) for c in range(w)],
                (h, w), "b") if h * w else np.zeros((h, w), dtype=bool)


# ------------------------------------------------------------------ registration
SYM_ARR = (SymArray, LazyIdx, LazyRow)
for _t_ in SYM_ARR:
    V.SYM.add(_t_)
    V.CONC[_t_] = _real
V.EVAL[SymArray] = lambda o, m: [V.eval_model(x, m) for x in o.view(np.ndarray).tolist()]
for _f in (np.array, np.asarray, np.ascontiguousarray):
    M.FUNC_MODELS[_f] = _np_array
M.CLASS_OF[SymArray] = np.ndarray
