"""Filters, calls, options and the whole lasso."""
import copy
from collections import ChainMap, OrderedDict

import numpy as np
import pandas as pd
from pandalone import xleash
from pandalone.xleash import (ABCSheet, ArraySheet, CallSpec, Cell, Coords, Edge, EmptyCaptureException, Lasso, Ranger,
                              SheetsFactory, installed_filters, parse_xlref)
from pandalone.xleash._filter import recursive_filter
from pandalone.xleash._lasso import get_default_opts, lasso as do_lasso, make_default_Ranger
from pandalone.xleash.io.backend import ABCBackend, SheetId

from harness.h_utils import Patched
from harness.h_capture import cells_of, ref_capture, ref_expand, groups_of


class Boom(Exception):
    pass


def as_series(d):
    return pd.Series(list(d.values()), index=list(d), dtype=object)


def flat(v):
    """Frames and series spelled out."""
    if isinstance(v, pd.DataFrame):
        return ["frame", list(v.columns), list(v.index), [flat(list(v[k].values)) for k in v.columns]]
    if isinstance(v, pd.Series):
        return ["series", list(v.index), flat(list(v.values))]
    if isinstance(v, list):
        return [flat(x) for x in v]
    if isinstance(v, dict):
        return OrderedDict([(k, flat(x)) for k, x in v.items()])
    return v


# ---------------------------------------------------------------- X13
def build(ctx, shape, pre="v"):
    """shape: 'i' integer, 's' text, [..] list, {key: ..} dictionary, ("frame", {column: [..]}), ("series", {index: ..})"""
    if isinstance(shape, tuple):
        d = {k: build(ctx, x, "%s.%s" % (pre, k)) for k, x in shape[1].items()}
        if shape[0] == "series":
            return as_series(d)
        return pd.DataFrame({k: pd.Series(x, dtype=object) for k, x in d.items()})
    if shape == "i":
        return ctx.int(pre, -9, 9)
    if shape == "s":
        return ctx.str(pre, 1, "wxyz")
    if isinstance(shape, list):
        return [build(ctx, s, "%s.%d" % (pre, i)) for i, s in enumerate(shape)]
    return OrderedDict([(k, build(ctx, s, pre + "." + k)) for k, s in shape.items()])


def snapshot(v):
    if isinstance(v, list):
        return [snapshot(x) for x in v]
    if isinstance(v, dict):
        return OrderedDict([(k, snapshot(x)) for k, x in v.items()])
    if isinstance(v, (pd.DataFrame, pd.Series)):
        return v.copy()
    return v


def ref_dive(ctx, v, cd, depth, inc, exc, base, calls):
    """The documented descent; `calls` collects the texts met, with their base coordinates."""
    if cd == depth:
        return v
    if isinstance(v, (pd.DataFrame, pd.Series)):
        frame = isinstance(v, pd.DataFrame)
        out = []
        for i, k in enumerate(list(v.columns if frame else v.index)):
            x = v[k] if frame else v.iloc[i]
            b = base and (Coords(base[0], base[1] + i) if frame else Coords(base[0] + i, base[1]))
            if cd > 0 or (not inc or k in inc) and (not exc or k not in exc):
                x = ref_dive(ctx, x, cd + 1, depth, inc, exc, b, calls)
            x = flat(x)
            out.append(x[2] if frame else x)
        return ["frame", list(v.columns), list(v.index), out] if frame else ["series", list(v.index), out]
    if isinstance(v, dict):
        out = OrderedDict()
        for k, x in v.items():
            if (not inc or k in inc) and (not exc or k not in exc):
                out[k] = ref_dive(ctx, x, cd + 1, depth, inc, exc, None, calls)
            else:
                out[k] = x
        return out
    if isinstance(v, list):
        out = []
        for i, x in enumerate(v):
            b = base
            if b is not None:
                b = Coords(b[0] + i, b[1]) if cd == 0 else Coords(b[0], b[1] + i) if cd == 1 else b
            out.append(ref_dive(ctx, x, cd + 1, depth, inc, exc, b, calls))
        return out
    if isinstance(v, str):
        calls.append((v, base))
        if v == "x":
            return ("lassoed", v)
        if v == "w":
            return None
    return v


class DiveRanger(Ranger):
    """Texts "x" are references, "w" ones to blank cells, "z" broken ones, and others no references at all."""

    def __init__(self):
        self.calls = []
        self.sheets_factory = None
        self.base_opts = {}
        self.available_filters = installed_filters
        self.intermediate_lasso = None

    def do_lasso(self, xlref, **kwds):
        self.calls.append((xlref, kwds))
        if xlref == "x":
            return Lasso(xl_ref=xlref, values=("lassoed", xlref), opts=ChainMap({}))
        if xlref == "w":
            return Lasso(xl_ref=xlref, values=None, opts=ChainMap({}))
        if xlref == "z":
            raise ValueError("broken")
        raise SyntaxError("not a reference")


SHAPES = {
    "row": ["s", "i", "s"],
    "table": [["s", "i"], ["i", "s"]],
    "deep": ["s", ["s", ["i", "s"]]],
    "dict": {"a": "s", "b": "i", "c": "s"},
    "nested": {"a": {"b": "s", "c": "s"}, "b": ["s", {"a": "s"}]},
    "dicts": [{"a": "s", "b": "s"}, "s"],
    "scalar": "s",
    "number": "i",
    "empty": [[], {}],
    "frame": ("frame", {"a": ["s", "i"], "b": ["i", "s"], "c": ["s", "s"]}),
    "series": ("series", {"a": "s", "b": "i", "c": "s"}),
    "frames": [("frame", {"a": ["s", "i"]}), {"b": ("series", {"a": "s"})}, "s"],
}


def equal(ctx, a, b):
    if isinstance(a, dict) or isinstance(b, dict):
        return isinstance(a, dict) and isinstance(b, dict) and list(a) == list(b) and all(
            [equal(ctx, a[k], b[k]) for k in a])
    if isinstance(a, list) or isinstance(b, list):
        return isinstance(a, list) and isinstance(b, list) and len(a) == len(b) and all(
            [equal(ctx, x, y) for x, y in zip(a, b)])
    return type(a) is type(b) and bool(ctx.eq(a, b))


def dive(ctx, shape, depths, incs, excs):
    vals = build(ctx, SHAPES[shape])
    old = snapshot(vals)
    depth = ctx.choice("depth", depths)
    inc = ctx.choice("inc", incs)
    exc = ctx.choice("exc", excs)
    st = ctx.choice("st", (None, (2, 5)))
    st = st and Coords(*st)
    sheet = ArraySheet([[1]])
    lasso = Lasso(xl_ref="r", values=vals, st=st, nd=st, sheet=sheet, opts=ChainMap({"lax": False}))
    r = DiveRanger()
    k, got = ctx.outcome(recursive_filter, r, lasso, (), inc, exc, depth)
    calls = []
    aslist = lambda x: [x] if isinstance(x, str) else x
    exp = ref_dive(ctx, old, 0, depth, aslist(inc), aslist(exc), st, calls)
    broken = [i for i, (t, _) in enumerate(calls) if t == "z"]
    if broken:
        ctx.reach("broken")
        ctx.assert_(k == "err" and isinstance(got, ValueError), "a broken reference stops the filter")
        calls = calls[:broken[0] + 1]
    else:
        ctx.assert_(k == "ok" and isinstance(got, Lasso), "filters")
        ctx.assert_(equal(ctx, flat(got.values), flat(exp)), "exactly the selected elements are replaced")
        ctx.assert_(got._replace(values=None) == lasso._replace(values=None), "nothing else changes")
        ctx.reach("dived" if calls else "untouched")
    ctx.assert_(lasso.values is vals and equal(ctx, flat(vals), flat(old)), "the given values are left as they were")
    ctx.assert_(len(r.calls) == len(calls), "each selected text is visited once")
    for (t, kw), (et, eb) in zip(r.calls, calls):
        ctx.assert_(t == et, "in order")
        ctx.assert_(kw.get("base_coords") == eb, "with the coordinates of its cell as base")
        ctx.assert_(kw.get("sheet") is sheet and kw.get("st") == st and kw.get("nd") == st, "and the location")


def keys(ctx, n):
    """Any keys, included and excluded."""
    ks = ("ab", "b", "c")[:n]
    inc = [ctx.str("i%d" % i, k, "abc") for i, k in enumerate((1, 2)[:ctx.choice("ninc", (0, 1, 2))])]
    exc = [ctx.str("e%d" % i, k, "abc") for i, k in enumerate((1, 2)[:ctx.choice("nexc", (0, 1, 2))])]
    astext = ctx.bool("astext")
    d = OrderedDict([(k, "x") for k in ks])
    ia = inc[0] if astext and len(inc) == 1 else inc
    ea = exc[0] if astext and len(exc) == 1 else exc
    got = recursive_filter(DiveRanger(), Lasso(values=d, opts={}), include=ia, exclude=ea).values
    ctx.assert_(list(got) == list(ks), "same keys")
    for k in ks:
        sel = (len(inc) == 0 or ctx.any([ctx.eq(i, k) for i in inc])) and not ctx.any([ctx.eq(e, k) for e in exc])
        ctx.assert_(got[k] == (("lassoed", "x") if sel else "x"), "only the included keys that are not excluded")
        ctx.reach("selected" if sel else "left")


def subfilters(ctx):
    """Filters given to an element-wise filter run on each replaced element, and only on these."""
    seen = []

    def mark(ranger, lasso, *args):
        seen.append(lasso.values)
        return lasso._replace(values=[lasso.values, list(args)])

    r = DiveRanger()
    r.available_filters = {"mark": {"func": mark}}
    vals = build(ctx, ["s", "i", "s"])
    for v in (vals[0], vals[2]):
        ctx.assume(v != "z")
    old = snapshot(vals)
    filters = ctx.choice("f", ([], [["mark", [1]]], ["mark", {"func": "mark", "args": [2]}]))
    got = recursive_filter(r, Lasso(values=vals, opts={}), filters=filters).values
    want = {0: lambda v: v, 1: lambda v: [v, [1]], 2: lambda v: [[v, []], [2]]}[len(filters)]
    for g, v in zip(got, old):
        e = want(("lassoed", "x")) if isinstance(v, str) and v == "x" else want(None) if isinstance(v, str) and v == "w" else v
        ctx.assert_(g == e, "filtered in order")
    ctx.reach("subfilters")


def cases_x13(tier):
    th = tier == "thorough"
    out = []
    for s in SHAPES:
        keyed = "{" in repr(SHAPES[s])
        if s.startswith("frame") and not th:
            out += [("dive", dict(shape=s, depths=dd, incs=(None, "a"), excs=(None, ["b"]))) for dd in ((-1, 1), (0, 2, None))]
            continue
        incs = (None, "a", ["a", "c"], []) if keyed else (None, ["a"])
        excs = (None, "b", ["a", "b"]) if keyed else (None, ["b"])
        out.append(("dive", dict(shape=s, depths=(-1, 0, 1, 2, None) + ((3, 4, -2) if th else ()),
                                 incs=incs, excs=excs)))
    out += [("keys", dict(n=n)) for n in (1, 2, 3)] + [("subfilters", {})]
    return out


# ---------------------------------------------------------------- X14
def the_ranger(filters, opts=None):
    return Ranger(SheetsFactory(), opts, filters)


def calls(ctx, n, form):
    """The same call-spec, run n times with any pattern of failures."""
    seen = []
    fails = [ctx.bool("fail%d" % i) for i in range(n)]
    how = ctx.choice("how", ("raise", "notlasso"))

    def f(ranger, lasso, *args, **kwds):
        seen.append((lasso.values, args, kwds))
        if fails[len(seen) - 1]:
            if how == "raise":
                raise Boom("boom")
            return 13
        results.append(lasso._replace(values=["done", lasso.values], st=Coords(7, 7), opts=ChainMap({"new": 1}), xl_ref="y"))
        return results[-1]

    results = []
    arg = ctx.int("arg", 0, 5)
    kw = ctx.choice("kw", ({}, {"k": 1}, {"k": [1, 2], "m": None}))
    lax = ctx.choice("lax", (None, True, False))
    optlax = ctx.choice("optlax", (None, True, False))
    name = ctx.choice("name", ("f", "missing"))
    rec = {"func": f}
    if ctx.bool("described"):
        rec["desc"] = "Some help."
    r = the_ranger({"f": rec})
    kwds = dict(kw)
    if lax is not None:
        kwds["lax"] = lax
    spec = CallSpec(name, [arg, "b"], kwds)
    keep = copy.deepcopy(spec)
    o = {} if optlax is None else {"lax": optlax}
    if ctx.bool("verbose"):
        o["verbose"] = True
    keepo = dict(o)
    opts = ChainMap(o)
    islax = lax if lax is not None else bool(optlax)
    for i in range(n):
        v = ["v", i]
        lasso = Lasso(xl_ref="x", values=v, opts=opts)
        st, got = ctx.outcome(r.make_call, lasso, *spec)
        ctx.assert_(r.intermediate_lasso == (name, lasso), "the call and what it was given are left for inspection")
        ctx.assert_(spec == keep, "the call-spec is not altered by running it")
        if name == "f":
            ctx.assert_(len(seen) == i + 1, "called once")
            ctx.assert_(seen[i][0] is v and ctx.eq(list(seen[i][1]), [arg, "b"]) and seen[i][2] == kw,
                        "with exactly its arguments")
        if name == "f" and not fails[i]:
            ctx.reach("done")
            ctx.assert_(st == "ok" and got.values == ["done", v], "the result of the function")
            ctx.assert_(got is results[-1], "exactly as it returned it")
        elif islax:
            ctx.reach("lax")
            ctx.assert_(st == "ok" and isinstance(got, Lasso) and got.values is v, "lax: the unfiltered values")
        else:
            ctx.reach("raised")
            ctx.assert_(st == "err" and isinstance(got, ValueError), "otherwise it raises")
        ctx.assert_(dict(opts) == keepo, "options are not altered")


def piped(ctx, n):
    """A pipe runs its calls in order over the values."""
    log = []
    fails = [ctx.bool("fail%d" % i) for i in range(n)]
    laxs = [ctx.bool("lax%d" % i) for i in range(n)]

    def f(ranger, lasso, i):
        log.append(i)
        if fails[i]:
            raise Boom()
        return lasso._replace(values=lasso.values + [i])

    r = the_ranger(dict(installed_filters, f={"func": f}))
    forms = ctx.choice("form", ("list", "dict"))
    specs = []
    for i in range(n):
        kw = {"lax": True} if laxs[i] else {}
        specs.append(["f", [i], kw] if forms == "list" else {"func": "f", "args": [i], "kwds": kw})
    keep = copy.deepcopy(specs)
    for rnd in range(2):
        del log[:]
        vals = [9]
        st, got = ctx.outcome(r.make_call, Lasso(values=vals, opts=ChainMap({})), "pipe", specs, {})
        bad = [i for i in range(n) if fails[i] and not laxs[i]]
        if bad:
            ctx.reach("raised")
            ctx.assert_(st == "err" and isinstance(got, ValueError), "a failing call stops the pipe")
            ctx.assert_(log == list(range(bad[0] + 1)), "no later call runs")
        else:
            ctx.reach("done")
            ctx.assert_(st == "ok" and got.values == [9] + [i for i in range(n) if not fails[i]],
                        "every call over the values of the previous")
            ctx.assert_(log == list(range(n)), "each once, in order")
        ctx.assert_(vals == [9] and specs == keep, "the inputs are not altered")


def nested(ctx):
    """A sub-filter of an element-wise filter is lax for every element, not only for the first."""
    n = 3
    fails = [ctx.bool("fail%d" % i) for i in range(n)]
    count = []

    def f(ranger, lasso, **kwds):
        ctx.assert_(kwds == {"k": 1}, "exactly its arguments")
        count.append(1)
        if fails[len(count) - 1]:
            raise Boom()
        return lasso._replace(values="filtered")

    lax = ctx.bool("lax")
    r = DiveRanger()
    r.available_filters = dict(installed_filters, f={"func": f})
    spec = {"func": "f", "kwds": {"k": 1, "lax": True} if lax else {"k": 1}}
    st, got = ctx.outcome(r.make_call, Lasso(values=["x"] * n, opts=ChainMap({})), "recurse", [], {"filters": [spec]})
    if any(fails) and not lax:
        ctx.assert_(st == "err" and isinstance(got, ValueError), "raises")
        ctx.reach("raised")
    else:
        ctx.assert_(st == "ok", "filters")
        ctx.assert_(got.values == [("lassoed", "x") if f else "filtered" for f in fails], "each by itself")
        ctx.reach("done")


def whole(ctx):
    """Calls through the lasso; the outcome of a lax failure is the values captured."""
    fail = ctx.bool("fail")
    lax = ctx.choice("lax", (None, "true", "false"))
    base = ctx.choice("base", (None, True, False))

    def f(ranger, lasso, *a, **k):
        ctx.assert_(a == (1,) and k == {"z": [2]}, "its arguments")
        if fail:
            raise Boom()
        return lasso._replace(values="ok")

    r = the_ranger({"f": {"func": f}}, None if base is None else {"lax": base})
    ref = '#A1:B1:{"func":"f","args":[1],"kwds":{"z":[2]%s}}' % ("" if lax is None else ',"lax":' + lax)
    for _ in range(2):
        st, got = ctx.outcome(r.do_lasso, ref, sheet=ArraySheet([[7, 8]]))
        if not fail:
            ctx.assert_(st == "ok" and got.values == "ok", "filtered")
            ctx.reach("done")
        elif lax == "true" or lax is None and base:
            ctx.assert_(st == "ok" and got.values == [[7, 8]], "unfiltered")
            ctx.reach("lax")
        else:
            ctx.assert_(st == "err" and isinstance(got, ValueError), "raised")
            ctx.reach("raised")


def cases_x14(tier):
    th = tier == "thorough"
    out = [("calls", dict(n=n, form=0)) for n in ((1, 2, 3) if not th else (1, 2, 3, 4))]
    out += [("piped", dict(n=n)) for n in ((1, 2, 3) if not th else (1, 2, 3, 4))]
    return out + [("nested", {}), ("whole", {})]


# ---------------------------------------------------------------- X15
class GridSheet(ABCSheet):
    """Every cell full, holding its name."""

    def __init__(self, name="sh", h=3, w=3):
        self.name = name
        self.h, self.w = h, w

    def get_sheet_ids(self):
        return SheetId("wb", [self.name, 0])

    def open_sibling_sheet(self, sheet_id):
        return GridSheet(sheet_id)

    def list_sheetnames(self):
        return [self.name]

    def _read_states_matrix(self):
        return np.ones((self.h, self.w), dtype=bool)

    def read_rect(self, st, nd):
        if nd is None:
            return (self.name, st[0], st[1])
        return [[(self.name, r, c) for c in range(st[1], nd[1] + 1)] for r in range(st[0], nd[0] + 1)]


class Factory:
    def __init__(self):
        self.log = []

    def fetch_sheet(self, wb, sh, base_sheet=None):
        self.log.append((wb, sh, base_sheet))
        return GridSheet("%s!%s" % (wb, sh))


def fields(ctx, ref_has, ctx_has, sheet):
    """Each field: from the reference, else from the context, else the default."""
    log = []

    def f(ranger, lasso, *args):
        log.append((args, lasso.opts))
        return lasso

    sf = Factory()
    base = {"verbose": False, "k": [1]}
    keep = copy.deepcopy(base)
    r = Ranger(sf, base, {"f": {"func": f}})
    sym = ctx.str("name", 1, "ABCdef")
    # the reference
    ref = ("wb.x" if "file" in ref_has else "") + "#"
    if "sheet" in ref_has:
        ref = ref + sym + "!"
    ref = ref + "B2"
    if "nd" in ref_has:
        ref = ref + ":C3" + (":D" if "exp" in ref_has else "")
    js = []
    if "call" in ref_has:
        js.append('"func":"f","args":["ref"]')
    if "opts" in ref_has:
        js.append('"opts":{"k":2,"z":3}')
    if js:
        ref = ref + ":{" + ",".join(js) + "}"
    # the context
    kw = {}
    if "file" in ctx_has:
        kw["url_file"] = "ctx.x"
    if "sheet" in ctx_has:
        kw["sh_name"] = "ctxsh"
    if "nd" in ctx_has:
        kw["nd_edge"] = Edge(Cell("2", "C"))
    if "exp" in ctx_has:
        kw["exp_moves"] = "U1"
    if "call" in ctx_has:
        kw["call_spec"] = CallSpec("f", ["ctx"], {})
    if "st" in ctx_has:
        kw["st_edge"] = Edge(Cell("1", "A"))
    if "base" in ctx_has:
        kw["base_coords"] = Coords(0, 0)
    gs = GridSheet("given") if sheet else None
    if gs:
        kw["sheet"] = gs
    kept = dict(kw)
    nd_in_ref = "nd" in ref_has
    has = lambda x: x in ref_has
    res = []
    for _ in range(2):
        del log[:], sf.log[:]
        got = r.do_lasso(ref, **kw)
        res.append(got)
        ctx.assert_(base == keep, "the base options are not altered")
        ctx.assert_(kw == kept, "nor is the context")
        wb = "wb.x" if has("file") else "ctx.x" if "file" in ctx_has else None
        sh = sym if has("sheet") else "ctxsh" if "sheet" in ctx_has else None
        ctx.assert_(len(sf.log) == 1 and sf.log[0][0] == wb and ctx.eq(sf.log[0][1], sh) and sf.log[0][2] is gs,
                    "the sheet of the reference, else of the context")
        ctx.assert_(got.url_file == wb and ctx.eq(got.sh_name, sh), "file and sheet")
        ctx.assert_(got.xl_ref == ref, "the reference itself")
        ctx.assert_(got.st_edge == Edge(Cell("2", "B"), None, None), "the 1st edge of the reference")
        nde = Edge(Cell("3", "C")) if nd_in_ref else kw.get("nd_edge")
        ctx.assert_(got.nd_edge == nde, "the 2nd edge")
        exp = "D" if has("exp") else kw.get("exp_moves")
        ctx.assert_(got.exp_moves == exp, "the expansions")
        ctx.assert_(got.base_coords == kw.get("base_coords"), "the base")
        spec = CallSpec("f", ["ref"], {}) if has("call") else kw.get("call_spec")
        ctx.assert_(got.call_spec == spec, "the filters")
        ctx.assert_([list(a) for a, _ in log] == ([spec.args] if spec else []), "which ran")
        opts = {"verbose": False, "k": 2, "z": 3} if has("opts") else {"verbose": False, "k": [1]}
        ctx.assert_(dict(got.opts) == opts, "options of the reference over the base ones")
        for _, o in log:
            ctx.assert_(dict(o) == opts, "also while filtering")
        # what is captured
        a, b = (1, 1), (2, 2) if nd_in_ref else (1, 2) if "nd" in ctx_has else None
        if exp == "U1":
            a, b = (0, 1), b or (1, 1)
        ctx.assert_(got.st == a and got.nd == b, "captures accordingly")
        ctx.assert_(got.values == got.sheet.read_rect(got.st, got.nd), "and reads it")
        # whatever is done to a result concerns no other
        got.opts["k"] = "spoiled"
        if isinstance(got.opts.maps[-1].get("k"), list):
            got.opts.maps[-1]["k"].append("spoiled")
        if isinstance(got.values, list):
            got.values.append("spoiled")
    ctx.assert_(base == keep, "the base options are not shared with the results")
    ctx.assert_(res[0].opts is not res[1].opts, "options are not shared")
    ctx.reach("ref opts" if has("opts") else "base opts")


def opts_only(ctx, n):
    """Options: any presence of any key, over a sequence of references."""
    keys_ = ("lax", "verbose", "k")
    base = {k: ["base"] for k in keys_ if ctx.bool("b" + k)}
    keep = copy.deepcopy(base)
    given = ctx.bool("none")
    r = Ranger(Factory(), None if given else base, {})
    for i in range(n):
        mine = [k for k in keys_ if ctx.bool("r%d%s" % (i, k))]
        ref = '#A1:{"opts":{%s}}' % ",".join(['"%s":%d' % (k, i) for k in mine])
        got = r.do_lasso(ref if mine or ctx.bool("empty%d" % i) else "#A1")
        exp = {} if given else dict(keep)
        exp.update({k: i for k in mine})
        ctx.assert_(dict(got.opts) == exp, "options of this reference over the base ones")
        for k in list(got.opts):
            got.opts[k] = "spoiled"
        ctx.assert_(base == keep, "the base options are not altered")
    ctx.reach("sequence")


def defaults(ctx):
    """The high-level function falls back to the default options."""
    over = ctx.choice("over", (None, {}, {"lax": True}, {"verbose": True, "foo": 1}, {"read": {}}, {"read": {"x": 1}, "lax": None}))
    keep = copy.deepcopy(over)
    d = get_default_opts(over)
    exp = {"lax": False, "verbose": False, "read": {"on_demand": True}}
    exp.update(over or {})
    ctx.assert_(d == exp and over == keep, "overrides over the defaults")
    ctx.assert_(get_default_opts() == {"lax": False, "verbose": False, "read": {"on_demand": True}},
                "the defaults stay")
    ret = ctx.bool("ret")
    got = do_lasso("#A1", base_opts=over, sheet=GridSheet("g"), sheets_factory=Factory(), return_lasso=True)
    ctx.assert_(dict(got.opts) == exp, "the options given over the default ones")
    ctx.assert_(over == keep, "not altered")
    vals = do_lasso("#A1", base_opts=over, sheet=GridSheet("g"), sheets_factory=Factory())
    ctx.assert_(vals == got.values, "the values or the lasso")
    ctx.reach("defaults")


def resources(ctx):
    """A factory made for the call is closed after it, a given one stays open."""
    log = []
    old_close, old_fetch = SheetsFactory.close, SheetsFactory.fetch_sheet

    def close(self):
        log.append(("close", self))
        old_close(self)

    def fetch(self, *a, **k):
        log.append(("fetch", self))
        return old_fetch(self, *a, **k)

    fail = ctx.choice("fail", (None, "filter", "capture"))
    mine = SheetsFactory() if ctx.bool("given") else None
    kw = {"sheets_factory": mine} if mine is not None or ctx.bool("none") else {}
    ref = {None: "#A1", "filter": '#A1:"missing"', "capture": '#E9(D):{"opts":{"no_empty":true}}'}[fail]
    ret = ctx.choice("ret", (None, True, False))
    if ret is not None:
        kw["return_lasso"] = ret
    with Patched(SheetsFactory, close=close, fetch_sheet=fetch):
        st, got = ctx.outcome(do_lasso, ref, sheet=GridSheet("g"), **kw)
    ctx.assert_((st == "err") == (fail is not None), "as usual")
    ctx.assert_(st == "err" or (got.values if ret else got) == ("g", 0, 0), "the value")
    if mine is not None:
        ctx.assert_(log == [("fetch", mine)], "a given factory is used, and stays open")
        ctx.reach("given")
    else:
        ctx.assert_([x for x, _ in log] == ["fetch", "close"] and log[0][1] is log[1][1], "the factory of the call is closed")
        ctx.reach("closed")


def nothing(ctx):
    """Where nothing is captured."""
    r = Ranger(Factory(), {}, {})
    base = ctx.choice("base", (None, True, False))
    mine = ctx.choice("mine", (None, "true", "false"))
    if base is not None:
        r.base_opts["no_empty"] = base
    edges = ctx.choice("edges", ("E9(D)", "A1:E9(D)", "E9(UR):B2"))
    st, got = ctx.outcome(r.do_lasso, "#%s%s" % (edges, "" if mine is None else ':{"opts":{"no_empty":%s}}' % mine))
    if mine == "true" or mine is None and base:
        ctx.assert_(st == "err" and isinstance(got, EmptyCaptureException), "an error, when so asked")
        ctx.assert_(r.intermediate_lasso[0] == "open", "the last stage is left for inspection")
        ctx.reach("empty error")
    else:
        ctx.assert_(st == "ok" and got.values == [] and got.st is None and got.nd is None, "otherwise no values")
        ctx.assert_(r.intermediate_lasso == ("read_rect", got), "the last stage is left for inspection")
        ctx.reach("empty")


STAGES = ("context", "parse", "open", "capture", "read_rect")


MALFORMED = ('#A1:B2:["f", 1, 2, 3]', '#A1:B2:{"opts": 5}')


def stages(ctx):
    """The last stage reached, and its result, are left for inspection."""
    class Sheet(GridSheet):
        def read_rect(self, st, nd):
            if "read_rect" in fails:
                raise Boom()
            return GridSheet.read_rect(self, st, nd)

        def get_states_matrix(self):
            if "capture" in fails:
                raise Boom()
            return GridSheet.get_states_matrix(self)

    class Fac(Factory):
        def fetch_sheet(self, wb, sh, base_sheet=None):
            if "open" in fails:
                raise Boom()
            return Sheet("s")

    def f(ranger, lasso, *args):
        seen.append(ranger.intermediate_lasso)
        if "filter" in fails:
            raise Boom()
        return lasso._replace(values=args)

    r = Ranger(Fac(), {}, {"f": {"func": f}, "g": {"func": f}, "pipe": installed_filters["pipe"]})
    for i in range(2):
        seen = []
        fails = [ctx.choice("fails%d" % i, (None,) + STAGES[1:] + ("filter",))]
        filt = ctx.choice("filt%d" % i, ("", ':["f",[1]]', ':["pipe",["f",["g",[2]],"f"]]'))
        bad = ctx.choice("bad%d" % i, MALFORMED + ("#A1:B2:B3" + filt,)) if "parse" in fails else None
        st, got = ctx.outcome(r.do_lasso, bad or "#A1:B2" + filt)
        stage, last = r.intermediate_lasso
        ctx.assert_((st == "err") == (fails[0] is not None and (fails[0] != "filter" or filt != "")), "as usual")
        if st == "err":
            ctx.assert_(isinstance(got, SyntaxError if bad and bad not in MALFORMED else (ValueError, Boom)),
                        "reported, telling texts that are no references from those that are malformed")
            ctx.assert_(bad not in MALFORMED or bad in str(got), "naming the reference")
        if fails[0] in STAGES:
            ctx.assert_(stage == STAGES[STAGES.index(fails[0]) - 1], "the stage before the failed one")
        else:
            ctx.assert_(stage == ("read_rect" if not filt else "f"), "the last stage")
        if filt and fails[0] not in STAGES:
            ctx.assert_(last is seen[-1][1] and seen[-1][0] == "f", "the last call")
            if fails[0] is None and "pipe" in filt:
                ctx.assert_([(a, b.values) for a, b in seen[1:]] == [("g", ()), ("f", (2,))], "each call in turn")
        ctx.assert_((last.sheet is not None) == (stage not in ("context", "parse")), "with its sheet")
        ctx.assert_((last.st == (0, 0) and last.nd == (1, 1)) == (stage not in STAGES[:3]), "with its coordinates")
        ctx.assert_((last.values is not None) == (stage not in STAGES[:4]), "with its values")
        ctx.reach("stages")


def base_less(ctx):
    """A position in the context is no base for relative coordinates, unless given as such."""
    r = Ranger(Factory(), {}, {})
    kw = {}
    if ctx.bool("st"):
        kw["st"] = Coords(1, 2)
    if ctx.bool("nd"):
        kw["nd"] = Coords(3, 4)
    b = None
    if ctx.bool("base"):
        b = kw["base_coords"] = Coords(ctx.int("r", 0, 3), ctx.int("c", 0, 3))
    st, got = ctx.outcome(r.do_lasso, "#R.C.:R2C3", sheet=GridSheet("g"), **kw)
    if b is None:
        ctx.assert_(st == "err" and isinstance(got, ValueError), "no base")
        ctx.reach("no base")
    else:
        ctx.assert_(st == "ok" and got.st == (min(b[0], 1), min(b[1], 2)) and got.nd == (max(b[0], 1), max(b[1], 2)), "from the base")
        ctx.reach("base")


def available(ctx):
    """Only the filters given are available; the installed ones when none are given."""
    marks = {"mark": {"func": lambda ranger, lasso: lasso._replace(values="marked")}}
    which = ctx.choice("which", ("unset", "empty", "given"))
    how = ctx.choice("how", ("lasso", "default", "ranger"))
    avail = {"unset": None, "empty": {}, "given": marks}[which]
    name = ctx.choice("name", ("mark", "redim"))
    ref = '#A1:"%s"' % name
    if how == "lasso":
        st, got = ctx.outcome(do_lasso, ref, sheets_factory=Factory(), available_filters=avail, return_lasso=True)
    else:
        r = make_default_Ranger(Factory(), None, avail) if how == "default" else Ranger(Factory(), None, avail)
        st, got = ctx.outcome(r.do_lasso, ref)
    if which == "unset" and name == "redim" or which == "given" and name == "mark":
        ctx.assert_(st == "ok" and got.values == ("marked" if which == "given" else ("None!None", 0, 0)), "filtered")
        ctx.reach("available")
    else:
        ctx.assert_(st == "err" and isinstance(got, ValueError), "not available")
        ctx.reach("missing")


def cases_x15(tier):
    import itertools

    th = tier == "thorough"
    out = []
    rp = ("file", "sheet", "nd", "exp", "call", "opts")
    cp = ("file", "sheet", "nd", "exp", "call", "st", "base")
    refs = [x for n in range(len(rp) + 1) for x in itertools.combinations(rp, n)
            if "nd" in x or "exp" not in x]
    ctxs = [x for n in range(len(cp) + 1) for x in itertools.combinations(cp, n)]
    if not th:
        ctxs = [x for x in ctxs if len(x) in (0, 1, 2, 6, 7)]
    for i, a in enumerate(refs):
        for j, b in enumerate(ctxs):
            if th or (i + j) % 2 == 0 or len(b) < 2 or len(b) == 7:
                out.append(("fields", dict(ref_has=a, ctx_has=b, sheet=(i + j) % 3 != 0)))
    return out + [("opts_only", dict(n=n)) for n in ((1, 2) if not th else (1, 2, 3))] + [
        (k, {}) for k in ("defaults", "resources", "available", "nothing", "stages", "base_less")]


# ---------------------------------------------------------------- X20
class PatternSheet(ABCSheet):
    """A sheet of unknown full and empty cells; each full cell holds its own position."""

    def __init__(self, m, cells):
        self.m = m
        self.cells = cells

    def get_sheet_ids(self):
        return SheetId("wb", ["sh", 0])

    def open_sibling_sheet(self, sheet_id):
        return self

    def list_sheetnames(self):
        return ["sh"]

    def _read_states_matrix(self):
        return self.m

    def read_rect(self, st, nd):
        if nd is None:
            return ("cell", st[0], st[1])
        return [[("cell", r, c) for c in range(st[1], nd[1] + 1)] for r in range(st[0], nd[0] + 1)]


def shaped(a, b, dims):
    rows = [[("cell", r, c) for c in range(a[1], b[1] + 1)] for r in range(a[0], b[0] + 1)]
    return rows


def end_to_end(ctx, h, w, st, nd, exp, hist):
    """#ST:ND:EXP on any sheet: the rectangle of the documented rules."""
    m = ctx.boolmatrix("m", h, w)
    cells = cells_of(m, h, w)
    sheet = PatternSheet(m, cells)
    no_empty = ctx.bool("no_empty")
    r = Ranger(SheetsFactory(), {"no_empty": True} if no_empty else None, {})

    def text(e):
        return "R%sC%s" % (e[0], rc(e[1])) + ("(%s%s)" % (e[2], e[3] or "") if e[2] else "")

    def rc(c):
        return str(ord(c) - 64) if "A" <= c <= "Z" else c

    ref = "#" + text(st) + (":" + text(nd) if nd else "") + (":" + exp if exp else "")
    if hist:
        ctx.outcome(r.do_lasso, "#A1(DR):..(DR):LURD", sheet=sheet)
    k, got = ctx.outcome(r.do_lasso, ref, sheet=sheet)
    ea, eb = ref_capture(ctx, cells, st, nd)
    if ea == "empty":
        ctx.reach("empty")
        if no_empty:
            ctx.assert_(k == "err" and isinstance(got, EmptyCaptureException), "an empty capture raises when asked to")
        else:
            ctx.assert_(k == "ok" and got.values == [] and got.st is None and got.nd is None, "an empty capture: nothing")
        return
    if ea == "invalid":
        ctx.reach("invalid")
        ctx.assert_(k == "err" and isinstance(got, ValueError), "rejected")
        return
    if exp:
        ea, eb = ref_expand(cells, ea, eb or ea, groups_of(exp))
    ctx.assert_(k == "ok", "lassoes")
    ctx.assert_(tuple(got.st) == ea and (got.nd if eb is None else tuple(got.nd)) == eb, "the documented rectangle")
    if eb is None:
        ctx.reach("scalar")
        ctx.assert_(got.values == ("cell",) + ea, "a single cell is a scalar")
    else:
        ctx.reach("table")
        ctx.assert_(got.values == [[("cell", i, j) for j in range(ea[1], eb[1] + 1)] for i in range(ea[0], eb[0] + 1)],
                    "the values of the rectangle")
    ctx.observe(got.st, got.nd)


def whole_sheet(ctx, h, w, ref):
    """Shortcuts of the whole sheet."""
    m = ctx.boolmatrix("m", h, w)
    cells = cells_of(m, h, w)
    r = Ranger(SheetsFactory(), None, {})
    got = r.do_lasso(ref, sheet=PatternSheet(m, cells))
    a, b = ref_capture(ctx, cells, ("^", "^", None, None), ("_", "_", None, None))
    ctx.assert_(tuple(got.st) == a and tuple(got.nd) == b, "from the top-left to the bottom-right full cells")
    ctx.reach("whole")


def values(ctx, h, w, ref, rect):
    """Values come out as they are in the sheet."""
    vals = [[ctx.int("n%d.%d" % (r, c), 0, 9) if (r + c) % 2 else ctx.str("t%d.%d" % (r, c), 1) for c in range(w)]
            for r in range(h)]
    sf = SheetsFactory()
    sf.add_sheet(ArraySheet([list(x) for x in vals], ids=SheetId("wb", ["sh", 0])))
    r1, c1, r2, c2 = rect
    exp = [x[c1:c2 + 1] for x in vals[r1:r2 + 1]]
    for _ in range(2):
        got = do_lasso(ref, sheets_factory=sf)
        if isinstance(got, list):
            ctx.assert_(ctx.eq(got, exp), "the very values")
            got[0][0] = "spoiled"
        else:
            ctx.assert_(type(got) is type(exp[0][0]) and ctx.eq(got, exp[0][0]), "the very value")
    ctx.reach("values")


def piped_refs(ctx, which):
    """References with filters."""
    v = [[ctx.int("n%d.%d" % (r, c), 0, 9) for c in range(3)] for r in range(2)]
    sheet = ArraySheet([list(x) for x in v])
    ref, exp = {
        "row": ('#A1:C1:{"func":"redim","kwds":{"row":1}}', v[0]),
        "col": ('#B1:B2:["redim",{"col":1}]', [v[0][1], v[1][1]]),
        "other": ('#A1:B2:["redim",{"col":1,"row":1}]', [v[0][:2], v[1][:2]]),
        "transposed": ('#A1:B2:["redim",{"table":[2,true]}]', [[v[0][0], v[1][0]], [v[0][1], v[1][1]]]),
        "cell": ('#B2:B2:["redim",{"cell":0}]', v[1][1]),
        "scalar": ('#B2:["redim",{"scalar":2}]', [[v[1][1]]]),
        "pipe": ('#A1:C1:["pipe",[["redim",{"row":1}],["sorted",{"reverse":true}]]]', None),
    }[which]
    got = do_lasso(ref, sheet=sheet, sheets_factory=SheetsFactory())
    if exp is None:
        ctx.assert_(len(got) == 3 and got[0] >= got[1] and got[1] >= got[2], "filters in order")
        ctx.assert_(got[0] + got[1] + got[2] == v[0][0] + v[0][1] + v[0][2], "of the same values")
    else:
        ctx.assert_(ctx.eq(got, exp), "filtered values")
    ctx.reach("filtered")


def recursed(ctx, table):
    """Texts that are references are replaced by their values, relative to their own cell."""
    n = [[ctx.int("n%d%d" % (r, c), 0, 9) for c in range(3)] for r in range(2)]
    txt, rc = ctx.choice("ref", (("#A1", (0, 0)), ("#R2C3", (1, 2)), ("#R_C.", (1, 1)), ("#R.C_", (0, 2)),
                                 ("#R.C^", (0, 0)), ("hi", None)))
    grid = [[n[0][0], txt, n[0][2]], n[1]]
    sheet = ArraySheet([list(x) for x in grid])
    got = do_lasso('#A1:C2:"recurse"' if table else '#B1:"recurse"', sheet=sheet, sheets_factory=SheetsFactory())
    g = got[0][1] if table else got
    ctx.assert_(ctx.eq(g, grid[rc[0]][rc[1]] if rc else txt), "the value it refers to")
    if table:
        ctx.assert_(ctx.eq([got[0][0], got[0][2], got[1]], [n[0][0], n[0][2], n[1]]), "others as they are")
    ctx.reach("recursed")


def cases_x20(tier):
    th = tier == "thorough"
    h, w = (3, 4) if th else (2, 3)
    out = []
    sts = [("1", "A", None, None), ("2", "B", "DR", None), ("_", "_", "UL", "+"), ("^", "^", "R", "+"),
           ("-1", "C", None, None), ("3", "D", "LU", None), ("1", "B", "D", "?"), ("-4", "A", None, None)]
    nds = [None, (".", ".", "RD", None), (".", ".", "D", "?"), ("_", "_", None, None), ("2", "5", None, None),
           (".", "_", None, None), ("-1", "A", "R", "+")]
    for s in sts:
        for n in nds:
            if n and n[1] == "5":
                n = ("2", "E", None, None)
            exps = (None, "LURD", "R1") if n and n[2] is None or th and n else (None,)
            for e in exps:
                out.append(("end_to_end", dict(h=h, w=w, st=s, nd=n, exp=e, hist=1 if e else 0)))
    out += [("whole_sheet", dict(h=h, w=w, ref=x)) for x in ("#:", "#^^:__", "#0!:", "#R^C^:R_C_")]
    out += [("values", dict(h=3, w=3, ref=x, rect=y)) for x, y in (
        ("wb#sh!A1:C3", (0, 0, 2, 2)), ("wb#sh!b2", (1, 1, 1, 1)), ("wb#sh!B1:B_", (0, 1, 2, 1)), ("wb#:", (0, 0, 2, 2)),
        ("wb#R2C1:R2C-1", (1, 0, 1, 2)), ("wb#sh!_^:..(U+)", (2, 0, 2, 0)))[:5]]
    out += [("piped_refs", dict(which=k)) for k in ("row", "col", "other", "transposed", "cell", "scalar", "pipe")]
    out += [("recursed", dict(table=t)) for t in (0, 1)]
    return out


PROPERTIES = {
    "X13": {
        "cases": cases_x13,
        "bounds": {"quick": "12 nested shapes of lists, dictionaries, frames and series up to 3 deep with any small integers and one-letter texts, "
                            "depths -1..3, include/exclude lists and texts, with and without base coordinates; any keys of 1-2 letters",
                   "thorough": "depths up to 4, none and below -1"},
        "outside": ["frames and series with other labels than texts, or of other types than object"],
        "oracle": "a recursive description of the descent",
        "stubs": ["Ranger.do_lasso (what each text lassoes to)"],
        "must_reach": ["dived", "untouched", "broken", "selected", "left", "subfilters"],
        "budget": {"quick": 120, "thorough": 400},
    },
    "X14": {
        "cases": cases_x14,
        "bounds": {"quick": "up to 3 runs of one call-spec, pipes of up to 3, with any pattern of failures and lax flags",
                   "thorough": "up to 4"},
        "oracle": "the calls recorded by the filter functions",
        "must_reach": ["done", "lax", "raised"],
        "budget": {"quick": 120, "thorough": 400},
    },
    "X15": {
        "cases": cases_x15,
        "bounds": {"quick": "presence of 6 fields in the reference and 7 in the context (all but 3-5 at once), any sheet name "
                            "of one letter, each lassoed twice; options over sequences of 2 references",
                   "thorough": "all presence patterns; sequences of 3"},
        "oracle": "the precedence rule per field",
        "stubs": ["the sheets-factory and sheet (recording)"],
        "must_reach": ["ref opts", "base opts", "sequence", "defaults", "given", "closed", "available", "missing",
                       "empty", "empty error", "stages", "base", "no base"],
        "budget": {"quick": 150, "thorough": 600},
    },
    "X20": {
        "cases": cases_x20,
        "bounds": {"quick": "every pattern of a 2x3 sheet, 8 first and 7 second edges, 3 expansions; values of 3x3 sheets",
                   "thorough": "every pattern of a 3x4 sheet"},
        "oracle": "the composition of the reference semantics of X08, X09 and direct indexing",
        "must_reach": ["empty", "invalid", "scalar", "table", "whole", "values", "filtered", "recursed"],
        "budget": {"quick": 150, "thorough": 800},
    },
}
