"""Path exploration: decision trail, z3 path condition, assertions.

One *path* is one execution of a harness function in which every undetermined
truth value was decided by a fork.  Paths are explored depth-first by
re-execution: the trail of decisions of the previous path is replayed up to the
last open alternative, which is then flipped.  Each fork is kept only when the
solver says that the path condition stays satisfiable.
"""
import os
import sys
import time

_Z3_SITE = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
try:
    import z3
except ImportError:  # the venv of pandalone carries no solver: append, never prepend
    sys.path.append(_Z3_SITE)
    import z3

z3.set_param("model.completion", True)


class Signal(BaseException):
    """Engine control flow: must pass through the code under test untouched."""


class PathInfeasible(Signal):
    pass


class PathAbort(Signal):
    """Path abandoned (step limit, too many values): coverage is incomplete."""


class AssertFailed(Signal):
    pass


class EngineError(Signal):
    """Something the engine cannot encode."""


class Stop(Signal):
    pass


F, B, A, S = "f", "b", "a", "s"  # forced, branch, assume, (discharged) assertion
K = "k"  # what a term simplified to: a constant, or None


def simplify(e):
    """z3.simplify() that gives a constant in a replay exactly when it did at first (it orders
    operands by age, so that it may spot a contradiction in one run, and miss it in another)."""
    eng = Engine.current
    return z3.simplify(e) if eng is None else eng.simplify(e)


def _constant(e):
    if z3.is_int_value(e):
        return e.as_long()
    return True if z3.is_true(e) else False if z3.is_false(e) else None


class Engine:
    current = None

    def __init__(self, seed=1, max_steps=400_000, max_values=400, check_timeout_ms=20_000):
        self.solver = z3.SolverFor("QF_LIA") if False else z3.Solver()
        self.solver.set("timeout", check_timeout_ms)
        self.solver.set("random_seed", seed)
        self.max_steps = max_steps
        self.max_values = max_values
        self.trail = []  # [kind, value, open_alternative, extra]
        self.npushed = 0
        self.stats = dict(
            paths=0, infeasible=0, aborted=0, decisions=0, forks=0, checks=0, asserts=0,
            asserts_solver=0, asserts_pc=0, unknown=0, solver_s=0.0, concretized=0,
            gaps=0, opaque_formats=0, reached=0,
        )
        self.gap_notes = {}
        self.abort_notes = {}
        self.func_hits = {}
        self.nonascii = False
        self.path_reset()

    # -- per path ----------------------------------------------------------
    def path_reset(self):
        self.pos = 0
        self.bcount = 0
        self.model = None
        self.cache = {}
        self.inputs = {}
        self.observed = []
        self.fresh_n = 0
        self.steps = 0
        self.alive = []
        self.path_asserts = 0
        self.nonascii = False

    def fresh(self, prefix, sort="int"):
        self.fresh_n += 1
        n = "%s!%d" % (prefix, self.fresh_n)
        return z3.Int(n) if sort == "int" else z3.Bool(n)

    def tick(self):
        self.steps += 1
        if self.steps > self.max_steps:
            raise PathAbort("step limit")

    # -- solver ------------------------------------------------------------
    def check(self, *extra):
        t = time.perf_counter()
        r = self.solver.check(*extra)
        self.stats["solver_s"] += time.perf_counter() - t
        self.stats["checks"] += 1
        if r == z3.unknown:
            self.stats["unknown"] += 1
        return r

    def _push(self, cond):
        """The bcount-th constraint of this path: push unless still in place."""
        self.bcount += 1
        if self.bcount > self.npushed:
            self.solver.push()
            self.solver.add(cond)
            self.npushed += 1
            return True
        return False

    def get_model(self):
        if self.model is None:
            r = self.check()
            if r == z3.unsat:
                raise PathInfeasible("pc")
            if r == z3.unknown:
                raise PathAbort("solver unknown")
            self.model = self.solver.model()
        return self.model

    def simplify(self, e):
        i = self.pos
        self.pos += 1
        if i == len(self.trail):
            r = z3.simplify(e)
            self.trail.append([K, _constant(r), False, None])
            return r
        k, v = self.trail[i][:2]
        if k != K:
            raise EngineError("replay divergence: %r at %d" % (k, i))
        if v is not None:
            return z3.BoolVal(v) if v is True or v is False else z3.IntVal(v)
        r = z3.simplify(e)
        return r if _constant(r) is None else e

    # -- decisions -----------------------------------------------------------
    def branch(self, cond):
        """Decide a z3 BoolRef; forks when both outcomes are feasible."""
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        neg = False
        while z3.is_not(cond):
            cond = cond.arg(0)
            neg = not neg
        key = cond.get_id()
        hit = self.cache.get(key)
        if hit is not None:
            # also on the trail: whether equal conditions are built alike may differ in a replay,
            # as the solver's simplifier orders operands by age
            i = self.pos
            self.pos += 1
            if i == len(self.trail):
                self.trail.append([F, hit[0], False, None])
            elif self.trail[i][1] != hit[0] or self.trail[i][0] not in (F, B):
                raise EngineError("replay divergence: %r at %d" % (self.trail[i][0], i))
            elif self.trail[i][0] == B:
                self._push(cond if hit[0] else z3.Not(cond))
            return hit[0] != neg
        val = self._decide(cond)
        self.cache[key] = (val, cond)
        return val != neg

    def _decide(self, cond, extra=None):
        i = self.pos
        self.pos += 1
        trail = self.trail
        if i < len(trail):
            e = trail[i]
            if e[0] == B:
                self._push(cond if e[1] else z3.Not(cond))
                if i == len(trail) - 1 or e[2]:
                    self.model = None
            elif e[0] != F:
                raise EngineError("replay divergence: %r at %d" % (e[0], i))
            return e[1]
        self.stats["decisions"] += 1
        m = self.get_model()
        v = z3.is_true(m.eval(cond, model_completion=True))
        other = z3.Not(cond) if v else cond
        self.solver.push()
        self.solver.add(other)
        r = self.check()
        omodel = self.solver.model() if r == z3.sat else None
        self.solver.pop()
        if r == z3.unsat:
            trail.append([F, v, False, extra])
            return v
        self.stats["forks"] += 1
        trail.append([B, v, True, extra])
        self._push(cond if v else z3.Not(cond))
        return v

    def concretize_expr(self, e):
        """Fix an Int/Bool expr to one value on this path (forking over all of them)."""
        if z3.is_int_value(e):
            return e.as_long()
        n = 0
        while True:
            i = self.pos
            if i < len(self.trail):
                v = self.trail[i][3]
                if v is None:
                    raise EngineError("replay divergence: no value at %d" % i)
            else:
                m = self.get_model()
                v = m.eval(e, model_completion=True).as_long()
            self.stats["concretized"] += 1
            if self._decide(e == v, extra=v):
                return v
            n += 1
            if n > self.max_values:
                raise PathAbort("too many values to concretise")

    def assume(self, cond):
        if z3.is_true(cond):
            return
        if z3.is_false(cond):
            raise PathInfeasible("assume")
        i = self.pos
        self.pos += 1
        if i < len(self.trail):
            e = self.trail[i]
            if e[0] == F:
                return
            if e[0] != A:
                raise EngineError("replay divergence: %r at %d" % (e[0], i))
            self._push(cond)
            self.model = None
            return
        if self.model is not None and z3.is_true(self.model.eval(cond, model_completion=True)):
            self.trail.append([A, True, False, None])
            self._push(cond)
            return
        r = self.check(cond)
        if r == z3.unsat:
            raise PathInfeasible("assume")
        self.trail.append([A, True, False, None])
        self._push(cond)
        self.model = None

    def prove(self, cond):
        """True when the path condition implies cond; else raises AssertFailed with a model."""
        self.stats["asserts"] += 1
        self.path_asserts += 1
        i = self.pos
        self.pos += 1
        if i < len(self.trail):
            if self.trail[i][0] != S:
                raise EngineError("replay divergence: %r at %d" % (self.trail[i][0], i))
            return True
        if cond is True or z3.is_true(cond):
            self.stats["asserts_pc"] += 1
            self.trail.append([S, True, False, None])
            return True
        if cond is False or z3.is_false(cond):
            self.stats["asserts_pc"] += 1
            self.fail_model = self.get_model()
            return False
        self.stats["asserts_solver"] += 1
        r = self.check(z3.Not(cond))
        if r == z3.unsat:
            self.trail.append([S, True, False, None])
            return True
        if r == z3.unknown:
            raise PathAbort("assertion undecided by the solver")
        self.fail_model = self.solver.model()
        return False

    # -- exploration -----------------------------------------------------------
    def backtrack(self, floor=0):
        """Flip the deepest open alternative; False when none is left above `floor`."""
        t = self.trail
        while len(t) > floor:
            e = t[-1]
            if e[0] == B and e[2]:
                break
            t.pop()
        else:
            return False
        e = t[-1]
        e[1] = not e[1]
        e[2] = False
        keep = sum(1 for x in t[:-1] if x[0] in (B, A))
        while self.npushed > keep:
            self.solver.pop()
            self.npushed -= 1
        return True

    def load_prefix(self, prefix):
        while self.npushed:
            self.solver.pop()
            self.npushed -= 1
        self.trail = [[k, v, False, x] for k, v, x in prefix]

    def split_open(self, want):
        """Give away the shallowest open alternatives as new prefixes."""
        out = []
        for i, e in enumerate(self.trail):
            if len(out) >= want:
                break
            if e[0] == B and e[2]:
                e[2] = False
                out.append(
                    [(x[0], x[1], x[3]) for x in self.trail[:i]] + [(B, not e[1], e[3])]
                )
        return out


def cur():
    return Engine.current
