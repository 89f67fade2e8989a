"""Plugins, python- and converting filters."""
from collections import ChainMap, OrderedDict

import numpy as np
import pkg_resources
from harness.h_lasso import equal, snapshot
from harness.h_utils import Patched
from pandalone import xleash
from pandalone.xleash import Coords, Lasso, Ranger, SheetsFactory, installed_filters
from pandalone.xleash._filter import install_default_filters, py_filter, pyeval_filter
from pandalone.xleash.io import _xlrd
from pandalone.xleash.io._xlrd import XlrdBackend


class Boom(Exception):
    pass


# ---------------------------------------------------------------- X21
class EntryPoint:
    dist = "dist 1.0"

    def __init__(self, i, name, how, log):
        self.i, self.name, self.how, self.log = i, name, how, log

    def __repr__(self):
        return "EP%d" % self.i

    def load(self):
        self.log.append(("load", self.i))
        if self.how == "load fails":
            raise Boom("load")
        if self.how == "import fails":
            raise ImportError("no such module")
        return self.install if self.how in ("installs", "install fails") else xleash

    def install(self):
        self.log.append(("install", self.i))
        if self.how == "install fails":
            raise Boom("install")


def plugins(ctx, n, times, texts):
    log = []
    hows = ("installs", "module", "load fails", "install fails") if n > 1 else (
        "installs", "module", "load fails", "import fails", "install fails")
    eps = [EntryPoint(i, ctx.str("name%d" % i, 1, texts), ctx.choice("how%d" % i, hows), log) for i in range(n)]
    asked = []

    def found(group, name=None):
        asked.append(group)
        return iter(eps)

    group = ctx.bool("group")
    keys = ["%r@%s" % (e, e.dist) for e in eps]
    with Patched(pkg_resources.working_set, iter_entry_points=found), Patched(xleash, _plugins_installed={"other": 2}):
        for _ in range(times):
            del log[:]
            del asked[:]
            st, ex = ctx.outcome(xleash._init_plugins, *(["my.group"] if group else []))
            stages = dict(xleash._plugins_installed)
            ctx.assert_(asked == ["my.group" if group else "pandalone.xleash.plugins"], "of the group asked")
            if not n:
                ctx.assert_(st == "err" and isinstance(ex, ValueError), "no plugins at all is an error")
                ctx.assert_(stages == {"other": 2}, "nothing noted")
                ctx.reach("none")
                continue
            ctx.assert_(st == "ok", "failing plugins are tolerated")
            loads = [i for what, i in log if what == "load"]
            ctx.assert_(sorted(loads) == list(range(n)), "all are loaded, once")
            for a, b in zip(loads, loads[1:]):
                ctx.assert_(eps[a].name <= eps[b].name, "in the order of their names")
            ctx.assert_(log == [("load", i) for i in loads] + [
                ("install", i) for i in loads if eps[i].how in ("installs", "install fails")],
                "those loaded are installed once all have been loaded, in the same order")
            want = {"other": 2}
            for k, e in zip(keys, eps):
                want[k] = {"installs": 2, "module": 1, "install fails": 1}.get(e.how, 0)
                ctx.reach(e.how)
            ctx.assert_(stages == want, "the stages completed are noted for each")


def backends(ctx, n, times):
    """The project's own plugin, among other back-ends."""
    class Other:
        def __init__(self, i):
            self.i = i

    class Better(XlrdBackend):
        pass

    regs = []
    for i in range(n):
        k = ctx.choice("be%d" % i, ("other", "xlrd", "better"))
        regs.append(Other(i) if k == "other" else XlrdBackend() if k == "xlrd" else Better())
    mine = [b for b in regs if isinstance(b, XlrdBackend)]
    hold = list(regs)
    with Patched(_xlrd, io_backends=hold):
        for t in range(times):
            ctx.assert_(_xlrd.load_as_xleash_plugin() is None, "it installs")
            new = [b for b in hold if not any([b is r for r in regs])]
            ctx.assert_(len(new) == (0 if mine else 1) and all([type(b) is XlrdBackend for b in new]), "registered once")
            ctx.assert_([b for b in hold if not any([b is x for x in new])] == regs, "others are as they were")
    ctx.reach("there" if mine else "registered")


NAMES = ("pipe", "pyeval", "py", "recurse", "redim", "numpy", "dict", "odict", "sorted")


def defaults(ctx, times):
    """The default filters, among other ones."""
    filters = {}
    for k in ("mine", "py", "sorted"):
        if ctx.bool("has." + k):
            filters[k] = {"func": k}
    before = dict(filters)
    for t in range(times):
        install_default_filters(filters)
        ctx.assert_(sorted(filters) == sorted(set(NAMES) | set(before)), "the defaults are added")
        for k, v in filters.items():
            if k in NAMES:
                ctx.assert_(callable(v["func"]), "and replace those so named")
            else:
                ctx.assert_(v is before[k] and v == {"func": k}, "others are as they were")
    ctx.assert_(all([k in installed_filters for k in NAMES]), "as when importing")
    ctx.reach("defaults")


def cases_x21(tier):
    q = tier == "quick"
    return [("backends", dict(n=n, times=2)) for n in range(3 if q else 5)] + [("defaults", dict(times=2))] + cases_plugins(q)


def cases_plugins(q):
    return [("plugins", dict(n=n, times=t, texts="abc")) for n, t in ((0, 1), (1, 2), (2, 2), (3, 1)) + (() if q else ((3, 2), (4, 1)))]


# ---------------------------------------------------------------- X22
OPTS = ChainMap({"lax": False})


class Fails:
    pass


def given(ctx, form):
    if form == "int":
        return ctx.int("v", -9, 9)
    if form == "text":
        return ctx.str("v", 2, "ab1 ")
    if form == "none":
        return None
    return [ctx.int("v0", -9, 9), ctx.int("v1", -9, 9), ctx.str("v2", 1, "ab")]


def the_same(v):
    return v


EXPRS = OrderedDict([
    # expression: (forms of values, result out of the values; a Lasso when given as such)
    ("lasso.values", ("*", lambda v: v)),
    ("ranger", ("*", "ranger")),
    ("xleash", ("*", "xleash")),
    ("None", ("*", lambda v: None)),
    ("[lasso.values, 1]", ("*", lambda v: [v, 1])),
    ("lasso.values * 2 + 1", (("int",), lambda v: v * 2 + 1)),
    ("a = lasso.values\na - 1", (("int",), lambda v: v - 1)),
    ("lasso.values + 'x'", (("text",), lambda v: v + "x")),
    ("lasso.values[1] + lasso.values[0]", (("list",), lambda v: v[1] + v[0])),
    ("int(array([1, 2]).sum())", (("int",), lambda v: 3)),
    ("lasso._replace(values=[lasso.values], xl_ref='b')", ("*", "lasso")),
    ("lasso._replace(values=7, opts=None)", ("*", "no opts")),
    ("xleash.Lasso(values=7)", ("*", "new")),
    ("r = []\nfor i in range(3):\n    if i != 1:\n        r.append([i, lasso.values])\nr", ("*", lambda v: [[0, v], [2, v]])),
    ("def f(x):\n    return [x]\nf(lasso.values)", ("*", lambda v: [v])),
    ("[i for i in (1, 2) if i > 1]", ("*", lambda v: [2])),
    ("1 +", ("*", Fails)),
    ("nothing", ("*", Fails)),
    ("lasso.values.nothing", ("*", Fails)),
    ("1 / 0", ("*", Fails)),
])


def expected(ctx, got, what, lasso, ranger, v, msg):
    if what == "lasso":
        ctx.assert_(got == lasso._replace(values=[v], xl_ref="b"), msg)
    elif what == "no opts":
        ctx.assert_(got.opts is lasso.opts and got == lasso._replace(values=7), msg)
    elif what == "new":
        ctx.assert_(got == Lasso(values=7, opts=lasso.opts), msg)
    else:
        want = ranger if what == "ranger" else xleash if what == "xleash" else what(v)
        ctx.assert_(got._replace(values=None) == lasso._replace(values=None), "nothing else changes")
        if what in ("ranger", "xleash"):
            ctx.assert_(got.values is want, msg)
        else:
            ctx.assert_(equal(ctx, got.values, want), msg)


def python(ctx, form, how):
    """Values passed through an expression."""
    v = given(ctx, form)
    exprs = [e for e, (forms, _) in EXPRS.items() if forms == "*" or form in forms]
    expr = ctx.choice("expr", exprs)
    what = EXPRS[expr][1]
    r = Ranger(SheetsFactory(), {}, installed_filters)
    lasso = Lasso(xl_ref="a", st=Coords(1, 2), nd=Coords(1, 2), values=v, opts=OPTS)
    old = snapshot(v)
    if how == "py":
        st, got = ctx.outcome(py_filter, r, lasso, expr)
    elif how == "call":
        st, got = ctx.outcome(r.make_call, lasso, "py", [expr], {})
    else:
        st, got = ctx.outcome(r.make_call, lasso, "pipe", [["py", ["lasso.values"]], ["py", [expr]]], {})
    if what is Fails:
        ctx.assert_(st == "err" and isinstance(got, ValueError), "failing expressions are reported")
        ctx.reach("failed")
        return
    ctx.assert_(st == "ok", "evaluates")
    expected(ctx, got, what, lasso, r, old, "the result of the expression")
    ctx.assert_(equal(ctx, lasso.values, old), "the values are left as they were")
    ctx.reach("evaluated")


CELLS = OrderedDict([
    ("context.base_coords", lambda b: b), ("'ab'", lambda b: "ab"), ("[1, 'x']", lambda b: [1, "x"]), ("None", lambda b: None),
    ("lasso._replace(values=5)", lambda b: 5),
    ("lasso._replace(values=5, opts=None)", lambda b: 5), ("a b", Fails), ("x", Fails), ("", lambda b: None), ("elval * 2", "twice"), ("[i for i in (1, 2) if i > 1]", lambda b: [2]), ("i", "number"),
])


def cellwise(ctx, rows, cells):
    """Texts evaluated one by one."""
    eval_all = ctx.choice("all", (None, False, True))
    lax = ctx.bool("base")
    st0 = Coords(2, 5) if lax else None
    kinds = [[ctx.choice("c%d%d" % (i, j), cells) for j in range(n)] for i, n in enumerate(rows)]
    vals = [[ctx.int("v%d%d" % (i, j), -5, 5) if k == "i" else k for j, k in enumerate(row)] for i, row in enumerate(kinds)]
    want, failed = [], []
    for i, row in enumerate(kinds):
        want.append([])
        for j, k in enumerate(row):
            base = st0 and (st0[0] + i, st0[1] + j)
            f = CELLS[k]
            if f is Fails:
                failed.append(k)
            want[i].append(k if f is Fails else vals[i][j] if k == "i" else k * 2 if f == "twice" else f(base))
    lasso = Lasso(xl_ref="a", st=st0, nd=st0, values=vals, opts=OPTS)
    kw = {} if eval_all is None else {"eval_all": eval_all}
    sub = ctx.bool("sub-filter")
    if sub:
        kw["filters"] = [["py", ["[lasso.values]"]]]
        want = [[[w] if isinstance(x, str) and CELLS[k] is not Fails else w for w, x, k in zip(*rows)]
                for rows in zip(want, vals, kinds)]
    r = Ranger(SheetsFactory(), {}, installed_filters)
    st, got = ctx.outcome(pyeval_filter, r, lasso, **kw)
    if eval_all and failed:
        ctx.assert_(st == "err" and isinstance(got, ValueError), "the first error is raised when all must evaluate")
        ctx.reach("raised")
        return
    ctx.assert_(st == "ok", "evaluates")
    ctx.assert_(equal(ctx, got.values, want), "every text that evaluates is replaced by its value, and nothing else")
    ctx.assert_(got._replace(values=None) == lasso._replace(values=None), "nothing else changes")
    ctx.reach("skipped" if failed else "all evaluated")


def converted(ctx, name, n):
    """The functions of python as filters."""
    r = Ranger(SheetsFactory(), {}, installed_filters)
    kw = {}
    if name in ("dict", "odict"):
        v = [[ctx.str("k%d" % i, 1, "abc"), ctx.int("v%d" % i, -9, 9)] for i in range(n)]
        want = {}
        for k, x in v:
            want[k] = x
        if ctx.bool("more"):
            want["z"] = kw["z"] = 3
    elif name == "sorted":
        v = [ctx.int("v%d" % i, -9, 9) for i in range(n)]
        if ctx.bool("more"):
            kw["reverse"] = True
    else:
        v = [ctx.int("v%d" % i, -2, 2) for i in range(n)]
        if ctx.bool("more"):
            kw["dtype"] = "float"
            kw["ndmin"] = 2
    old = snapshot(v)
    lasso = Lasso(xl_ref="a", values=v, opts=OPTS)
    st, got = ctx.outcome(r.make_call, lasso, name, [], kw)
    ctx.assert_(st == "ok", "converts")
    ctx.assert_(got._replace(values=None) == lasso._replace(values=None), "nothing else changes")
    ctx.assert_(equal(ctx, v, old), "the values are left as they were")
    res = got.values
    if name in ("dict", "odict"):
        ctx.assert_(isinstance(res, OrderedDict) == (name == "odict") and isinstance(res, dict), "of the type asked")
        ctx.assert_(list(res) == list(want) and all([ctx.eq(res[k], x) for k, x in want.items()]), "the pairs, the last of the same key")
    elif name == "sorted":
        ctx.assert_(isinstance(res, list) and len(res) == n, "all of them")
        for a, b in zip(res, res[1:]):
            ctx.assert_(a >= b if kw else a <= b, "sorted")
        for x in old:
            ctx.assert_(sum([1 for y in res if y == x]) == sum([1 for y in old if y == x]), "the same values")
    else:
        ctx.assert_(isinstance(res, np.ndarray), "an array")
        ctx.assert_([int(x) for x in res.reshape(-1)] == old, "of the values")
        if kw:
            ctx.assert_(res.dtype == float and res.ndim == 2, "with the arguments given")
    ctx.reach(name)


def cases_x22(tier):
    q = tier == "quick"
    out = [("python", dict(form=f, how=h)) for f in ("int", "text", "list", "none") for h in ("py", "call", "pipe")]
    cells = list(CELLS)
    out += [("cellwise", dict(rows=[1], cells=cells)), ("cellwise", dict(rows=[2], cells=cells)),
            ("cellwise", dict(rows=[1, 1], cells=cells[:1] + cells[5:])), ("cellwise", dict(rows=[0, 2], cells=cells[:1] + cells[4:]))]
    if not q:
        out += [("cellwise", dict(rows=[2, 1], cells=cells[:3] + cells[5:]))]
    return out + [("converted", dict(name=f, n=n)) for f in ("dict", "odict", "sorted", "numpy") for n in range(0, 4 if q else 5)]


PROPERTIES = {
    "X21": {
        "cases": cases_x21,
        "bounds": {"quick": "up to 3 plugins with any names of one letter, each installing, being a module only, failing to load (in "
                            "two ways) or to install; initialised up to 2 times; up to 2 back-ends and 3 filters registered before",
                   "thorough": "up to 4 plugins and back-ends"},
        "oracle": "the calls recorded by the plugins; the registries before",
        "stubs": ["the entry-points of the distribution"],
        "must_reach": ["none", "installs", "module", "load fails", "import fails", "install fails", "there", "registered", "defaults"],
        "budget": {"quick": 90, "thorough": 400},
    },
    "X22": {
        "cases": cases_x22,
        "bounds": {"quick": "20 expressions over any small integer, text of 2 characters, list or nothing; tables of <=2 cells of 12 kinds; "
                            "<=3 values or pairs to convert, any small integers and keys of one letter",
                   "thorough": "tables of 3 cells; 4 values"},
        "outside": ["other expressions (evaluated by the asteval library)", "numpy's choice of types"],
        "oracle": "the values of the expressions, written in Python",
        "must_reach": ["failed", "evaluated", "raised", "skipped", "all evaluated", "dict", "odict", "sorted", "numpy"],
        "budget": {"quick": 120, "thorough": 400},
    },
}
