"""The two contexts a harness function runs under: symbolic, and concrete (replay)."""


class AssumeFailed(Exception):
    """Concrete run outside the assumptions."""


class CheckFailed(BaseException):
    """An assertion of the harness failed (concrete run)."""


ASCII = tuple(range(32, 127))


def _codes(alphabet):
    if alphabet is None:
        return ASCII
    if isinstance(alphabet, str):
        return tuple(sorted(set(map(ord, alphabet))))
    return tuple(sorted(alphabet))


class ConcreteCtx:
    symbolic = False

    def __init__(self, inputs):
        self.inputs = inputs
        self.observed = []
        self.reached = set()
        self.nasserts = 0

    def _in(self, name):
        return self.inputs[name]

    def int(self, name, lo, hi):
        return self._in(name)

    def bool(self, name):
        return self._in(name)

    def str(self, name, n, alphabet=None):
        return self._in(name)

    def strs(self, name, lens, alphabet=None):
        self.choice(name + ".len", list(lens))
        return self._in(name)

    def choice(self, name, options):
        return list(options)[self._in(name)]

    def float(self, name):
        v = self._in(name)
        return float.fromhex(v) if isinstance(v, str) else float(v)

    def boolmatrix(self, name, h, w):
        import numpy as np

        return np.array(self._in(name), dtype=bool).reshape(h, w)

    def padded(self, m, h, w, r, c):
        """A big matrix of False but for m at (r, c)."""
        import numpy as np

        out = np.zeros((h, w), dtype=bool)
        out[r:r + m.shape[0], c:c + m.shape[1]] = m
        return out

    def concrete(self, v):
        return v

    def assume(self, cond):
        if not cond:
            raise AssumeFailed()

    def assert_(self, cond, msg=""):
        self.nasserts += 1
        if not cond:
            raise CheckFailed(msg() if callable(msg) else str(msg))

    def fail(self, msg):
        self.assert_(False, msg)

    def observe(self, *vals):
        self.observed.append(vals)

    def reach(self, label):
        self.reached.add(label)

    def ite(self, c, a, b):
        return a if c else b

    def all(self, conds):
        return all(conds)

    def any(self, conds):
        return any(conds)

    def eq(self, a, b):
        return a == b

    def outcome(self, f, *a, **k):
        """('ok', value) or ('err', exception)."""
        try:
            return "ok", f(*a, **k)
        except Exception as ex:
            return "err", ex


class SymCtx:
    symbolic = True

    def __init__(self, eng):
        self.eng = eng

    def _reg(self, name, v):
        if name in self.eng.inputs:
            raise KeyError("duplicate input %s" % name)
        self.eng.inputs[name] = v
        return v

    def int(self, name, lo, hi):
        from .values import SymInt, z3

        if lo == hi:
            return self._reg(name, lo)
        x = z3.Int("in!" + name)
        self.eng.assume(z3.And(x >= lo, x <= hi))
        return self._reg(name, SymInt(x))

    def bool(self, name):
        from .values import SymBool, z3

        return self._reg(name, SymBool(z3.Bool("in!" + name)))

    def str(self, name, n, alphabet=None):
        from .values import _in_codes, mkstr, z3

        codes = _codes(alphabet)
        if codes and codes[-1] > 127:
            self.eng.nonascii = True
        cs = []
        conds = []
        for i in range(n):
            if len(codes) == 1:
                cs.append(codes[0])
                continue
            c = z3.Int("in!%s!%d" % (name, i))
            conds.append(_in_codes(c, codes))
            cs.append(c)
        if conds:
            self.eng.assume(z3.And(conds) if len(conds) > 1 else conds[0])
        return self._reg(name, mkstr(cs))

    def strs(self, name, lens, alphabet=None):
        return self.str(name, self.choice(name + ".len", list(lens)), alphabet)

    def choice(self, name, options):
        options = list(options)
        i = self.int(name, 0, len(options) - 1)
        return options[i if type(i) is int else i.__index__()]

    def float(self, name):
        from .fp import fresh_float

        return self._reg(name, fresh_float("in!" + name))

    def boolmatrix(self, name, h, w):
        from .nparr import bool_matrix

        return self._reg(name, bool_matrix("in!" + name, h, w))

    def padded(self, m, h, w, r, c):
        import numpy as np
        from .nparr import SymArray

        out = np.full((h, w), False, dtype=object)
        out[r:r + m.shape[0], c:c + m.shape[1]] = m.view(np.ndarray)
        return out.view(SymArray)

    def concrete(self, v):
        from .values import conc_deep

        return conc_deep(v)

    @staticmethod
    def _cond(c):
        from .values import SymBool

        if type(c) is SymBool:
            return c.e
        return bool(c)

    def assume(self, cond):
        from .engine import PathInfeasible

        c = self._cond(cond)
        if c is True:
            return
        if c is False:
            raise PathInfeasible("assume")
        self.eng.assume(c)

    def assert_(self, cond, msg=""):
        from .engine import AssertFailed

        if not self.eng.prove(self._cond(cond)):
            raise AssertFailed(msg if isinstance(msg, str) else "assertion")

    def fail(self, msg):
        self.assert_(False, msg)

    def observe(self, *vals):
        self.eng.observed.append(vals)

    def reach(self, label):
        self.eng.reach_labels.add(label)

    def ite(self, c, a, b):
        from .values import ite

        return ite(c, a, b)

    def all(self, conds):
        from .values import and_all

        return and_all(list(conds))

    def any(self, conds):
        from .values import or_any

        return or_any(list(conds))

    def eq(self, a, b):
        """Merged structural equality (no forks) of nested lists/tuples/dicts of leaves."""
        from .values import SYM, and_all, SymBool

        def go(x, y):
            if type(x) in SYM or type(y) in SYM:
                r = x == y
                return r if type(r) in (bool, SymBool) else bool(r)
            if isinstance(x, (list, tuple)) and isinstance(y, (list, tuple)):
                if isinstance(x, list) != isinstance(y, list) or len(x) != len(y):
                    return False
                return and_all([go(p, q) for p, q in zip(x, y)])
            if isinstance(x, dict) and isinstance(y, dict):
                if set(x) != set(y):
                    return False
                return and_all([go(x[k], y[k]) for k in x])
            r = x == y
            return r if type(r) is SymBool else bool(r)

        return go(a, b)

    def outcome(self, f, *a, **k):
        from .models import call

        try:
            return "ok", call(f, *a, **k)
        except Exception as ex:
            return "err", ex
