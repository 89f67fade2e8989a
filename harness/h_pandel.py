"""Building models: merging layers, steps and errors, schema defaults, header units."""
import copy
from collections import OrderedDict

import numpy as np
from jsonschema import ValidationError
from pandalone.pandata import ModelOperations, Pandel, PandelVisitor, parse_value_with_units

ABSENT = object()


class Boom(Exception):
    pass


class Box:
    """Some mutable object that is no part of JSON."""

    def __init__(self, v):
        self.v = v


def snapshot(v):
    if isinstance(v, Box):
        return Box(v.v)
    if isinstance(v, np.ndarray):
        return v.copy()
    if isinstance(v, dict):
        return {k: snapshot(x) for k, x in v.items()}
    if isinstance(v, list):
        return [snapshot(x) for x in v]
    return v


def nodes(v):
    """The mutable nodes of a tree."""
    out = []
    if isinstance(v, (Box, np.ndarray)):
        out.append(v)
    elif isinstance(v, dict):
        out.append(v)
        for x in v.values():
            out += nodes(x)
    elif isinstance(v, list):
        out.append(v)
        for x in v:
            out += nodes(x)
    return out


NAN = float("nan")


def same(ctx, a, b):
    """Deeply equal, disregarding the order of keys."""
    if isinstance(a, dict) or isinstance(b, dict):
        return isinstance(a, dict) and isinstance(b, dict) and len(a) == len(b) and all(
            [k in b and same(ctx, a[k], b[k]) for k in a])
    if isinstance(a, list) or isinstance(b, list):
        return isinstance(a, list) and isinstance(b, list) and len(a) == len(b) and all(
            [same(ctx, x, y) for x, y in zip(a, b)])
    if isinstance(a, Box) or isinstance(b, Box):
        return type(a) is type(b) and bool(ctx.eq(a.v, b.v))
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return type(a) is type(b) and a.tolist() == b.tolist()
    if a is None or b is None or a is np.nan or b is np.nan or a is NAN or b is NAN:
        return a is b
    return type(a) is type(b) and bool(ctx.eq(a, b))


# ---------------------------------------------------------------- D04
def node(ctx, pre, kinds):
    """kinds: what may be there: '-' nothing, 'n' null, 'i' number, 's' text, 'l' list, 'o' some object, 'lo' a list of it, 'a' an array, 'e' an empty one, '0' something else that is false,
    'd' list of objects,
    or an object given as a dictionary of kinds."""
    k = kinds[ctx.choice(pre + "?", list(range(len(kinds))))] if len(kinds) > 1 else kinds[0]
    if isinstance(k, dict):
        out = {}
        for key, kk in k.items():
            v = node(ctx, "%s.%s" % (pre, key), kk)
            if v is not ABSENT:
                out[key] = v
        return out
    if k == "-":
        return ABSENT
    if k == "n":
        return None
    if k == "i":
        return ctx.int(pre, -9, 9)
    if k == "s":
        return ctx.str(pre, 1, "xyz")
    if k == "e":
        return []
    if k == "0":
        return ctx.choice(pre + "=", ["", 0, False])
    if k == "o":
        return Box(ctx.int(pre, -9, 9))
    if k == "lo":
        return [Box(ctx.int(pre, -9, 9))]
    if k == "a":
        return np.array([7, 8])
    if k == "l":
        return [ctx.int(pre + "[0]", 0, 9), ctx.str(pre + "[1]", 1, "xyz")]
    return [{"x": ctx.int(pre + "[0]", 0, 9), "y": {"z": [1]}}, []]


class Nulls(Exception):
    pass


def ref_merge(a, b):
    """b over a"""
    if a is None and b is None:
        raise Nulls()
    if isinstance(a, dict) and isinstance(b, dict):
        out = {}
        for k in a:
            out[k] = ref_merge(a[k], b[k]) if k in b else a[k]
        for k in b:
            if k not in a:
                out[k] = b[k]
        return out
    return a if b is None else b


def model_class(schema):
    class Model(Pandel):
        def _get_json_schema(self, is_prevalidation):
            return schema

    return Model


def merge(ctx, kinds, n, key):
    layers = []
    for i in range(n):
        v = node(ctx, "m%d" % i, kinds)
        layers.append({} if v is ABSENT else {key: v} if key else v)
    keep = [snapshot(x) for x in layers]
    mm = model_class({})()
    ops = ctx.choice("ops", [None, 0, n - 1]) if n > 1 else None
    for i, x in enumerate(layers):
        if i == ops:    # these concern no merging
            mm.add_submodel(x, {"/": ModelOperations()})
        else:
            mm.add_submodel(x)
    exp = None
    try:
        for x in layers:
            exp = ref_merge(exp, x)
    except Nulls:
        exp = Nulls
    for rnd in range(2):
        st, got = ctx.outcome(mm.build)
        ctx.assert_(same(ctx, layers, keep), "the layers are left as they were")
        if exp is Nulls:
            ctx.reach("nulls")
            ctx.assert_(st == "err" and isinstance(got, ValidationError), "nulls in two layers are rejected")
            return
        ctx.assert_(st == "ok", "merges")
        ctx.assert_(same(ctx, got, exp), "the topmost value of every path")
        ctx.assert_(got is mm.model, "and is kept as the model")
        mine = nodes(got)
        for x in layers:
            for y in nodes(x):
                ctx.assert_(not any([z is y for z in mine]), "no branch is shared with a layer")
        for z in mine:     # whatever is done to the model concerns nobody else
            if isinstance(z, dict):
                z["spoiled"] = 1
            elif isinstance(z, Box):
                z.v = "spoiled"
            elif isinstance(z, np.ndarray):
                z[0] = 99
            else:
                z.append("spoiled")
    ctx.reach("merged")


def layered_defaults(ctx, n, flag):
    """Defaults of the schema apply to what no layer has."""
    schema = {"properties": {
        "a": {"type": "integer", "default": 5},
        "b": {"default": {"x": [1]}, "properties": {"y": {"default": 7}}},
    }}
    layers = []
    for i in range(n):
        m = {}
        if ctx.bool("a%d" % i):
            m["a"] = ctx.int("va%d" % i, 0, 9)
        if ctx.bool("b%d" % i):
            m["b"] = {}
            if ctx.bool("y%d" % i):
                m["b"]["y"] = ctx.int("vy%d" % i, 0, 9)
        layers.append(m)
    keep = [snapshot(x) for x in layers]
    keepschema = snapshot(schema)
    exp = {}
    for x in layers:
        exp = ref_merge(exp, x)
    exp = snapshot(exp)
    exp.setdefault("a", 5)
    if "b" in exp:
        exp["b"].setdefault("y", 7)
    else:
        exp["b"] = {"x": [1], "y": 7}
    mm = model_class(schema)()
    for x in layers:
        mm.add_submodel(x)
    got = mm.build()
    ctx.assert_(same(ctx, got, exp), "the topmost value, or else the default")
    ctx.assert_(same(ctx, layers, keep), "the layers are left as they were")
    ctx.assert_(same(ctx, schema, keepschema), "and the schema")
    ctx.reach("defaulted")


def cases_d04(tier):
    th = tier == "thorough"
    leaf = ["-", "n", "i", "l", "e"]
    obj = {"p": leaf, "q": ["-", "i", {"r": ["-", "i", "n"]}]}
    out = [("merge", dict(kinds=["-", "n", "i", "s", "l", "d", "e", "0", obj], n=2, key="k")),
           ("merge", dict(kinds=["i", "s", "l", "e", "0", {"p": ["-", "i", {"p": ["i"]}]}], n=2, key=None)),
           ("merge", dict(kinds=["-", "n", "i", "l", {"p": ["-", "i"]}], n=3, key="k")),
           ("merge", dict(kinds=[{"a": ["-", {"x": ["-", "i"], "y": ["-", "l"]}], "b": ["-", "i", "d"]}], n=2, key="k")),
           ("merge", dict(kinds=[{"a": [{"a": [{"a": ["-", "i", "l"], "b": ["-", "s"]}]}]}], n=3, key="k")),
           ("merge", dict(kinds=["-", "n", "i", "o", "lo", "a", {"p": ["-", "o", "a"]}], n=2, key="k")),
           ("merge", dict(kinds=["o", "lo", {"p": ["o", "a"]}], n=2, key=None)),
           ("merge", dict(kinds=["i", "n", "l", "o", "lo", "a"], n=1, key="k"))]
    if th:
        out += [("merge", dict(kinds=["-", "n", "i", "s", "l", obj], n=3, key="k")),
                ("merge", dict(kinds=["-", "n", "i", "l", {"p": ["-", "i"]}], n=4, key="k"))]
    return out + [("layered_defaults", dict(n=n, flag=0)) for n in ((1, 2, 3) if th else (1, 2))]


# ---------------------------------------------------------------- D05
STEPS = ("_prevalidate", "_merge", "_validate", "_curate")


def forced(ctx, step, nerr, rep):
    """Each step yields errors, or raises a validation error or another one, or nothing."""
    log = []
    how = [ctx.choice("how%d" % i, ("ok", "yield", "raise", "crash", "yield+crash")) for i in range(step, 4)]
    how = ["ok"] * step + how
    n = [ctx.choice("n%d" % i, tuple(range(1, nerr + 1))) if how[i].startswith("yield") else 0 for i in range(4)]

    def make(i):
        def run(self):
            log.append(i)
            for j in range(n[i]):
                yield ValidationError("e%d.%d" % (i, j))
            if how[i] == "raise":
                raise ValidationError("r%d" % i)
            if how[i].endswith("crash"):
                raise Boom("c%d" % i)
            if i == 1:
                self.model = ["the model"]

        return run

    class Forced(Pandel):
        def _get_json_schema(self, is_prevalidation):
            return {}

    for i, s in enumerate(STEPS):
        setattr(Forced, s, make(i))
    bad = [i for i in range(4) if how[i] != "ok"]
    mm = Forced()
    for _ in range(2):
        del log[:]
        errs = list(mm.build_iter())
        ctx.assert_(all([isinstance(e, ValidationError) for e in errs]), "all are validation errors")
        if not bad:
            ctx.assert_(errs == [] and log == [0, 1, 2, 3] and not mm._errored, "every step, in order")
            ctx.assert_(mm.build() == ["the model"], "the model")
            ctx.reach("built")
            continue
        i = bad[0]
        ctx.reach("failed")
        ctx.assert_(log == list(range(i + 1)), "no step after the failing one")
        ctx.assert_(mm._errored is True, "marked as errored")
        msgs = [e.message for e in errs]
        ctx.assert_(msgs[:n[i]] == ["e%d.%d" % (i, j) for j in range(n[i])], "every error of the step")
        rest = msgs[n[i]:]
        if how[i] == "raise":
            ctx.assert_(rest.pop(0) == "r%d" % i, "the error raised")
        elif how[i].endswith("crash"):
            ctx.assert_("c%d" % i in rest[0] and isinstance(errs[n[i]].cause, Boom), "the crash, with its cause")
            rest.pop(0)
        ctx.assert_(len(rest) == 1, "and that it gave up")
        del log[:]
        st, ex = ctx.outcome(mm.build)
        ctx.assert_(st == "err" and isinstance(ex, ValidationError) and ex.message == msgs[0], "build() raises the first")


def validated(ctx, n, ncur):
    """Errors of the real validation steps."""
    schema = {"type": "object", "properties": {"a": {"minimum": 0}, "b": {"maximum": 5, "type": "number"}}}
    strict = dict(schema, required=["a", "b"], properties={"a": {"minimum": 2}, "b": {}})
    calls = []

    class M(Pandel):
        def _get_json_schema(self, is_prevalidation):
            calls.append(is_prevalidation)
            return schema if is_prevalidation else strict

    crash = [ctx.bool("c%d" % i) for i in range(ncur)]
    answer = ctx.choice("answer", [None, True]) if ncur else None
    log = []

    def curate(i):
        def f(mm):
            ctx.assert_(mm is themm, "given the model maker")
            log.append(i)
            if crash[i]:
                raise Boom("c%d" % i)
            mm.model = dict(mm.model, **{"cur%d" % i: list(log)})
            return answer    # of no importance

        return f

    themm = mm = M([curate(i) for i in range(ncur)])
    exp = []
    model = {}
    for i in range(n):
        x = {}
        for k in ("a", "b"):
            if ctx.bool("%s%d" % (k, i)):
                x[k] = ctx.int("v%s%d" % (k, i), -9, 9)
                model[k] = x[k]
                if x[k] < 0 and k == "a" or k == "b" and x[k] > 5:
                    exp.append((k,))
        mm.add_submodel(x)
    errs = list(mm.build_iter())
    ctx.observe(len(errs))
    if exp:
        ctx.reach("prevalidate")
        ctx.assert_(calls == [True] * n, "sub-models are pre-validated")
        ctx.assert_([tuple(e.absolute_path) for e in errs[:-1]] == exp, "every error, in order")
        ctx.assert_(mm.model is None and log == [], "and nothing more")
        return
    bad = 0
    for k in ("a", "b"):
        bad += k not in model
    if "a" in model and model["a"] < 2:
        bad += 1
    if bad:
        ctx.reach("validate")
        ctx.assert_(len(errs) == bad + 1 and log == [], "every error of the merged model")
        return
    fail = [i for i in range(ncur) if crash[i]]
    if fail:
        ctx.reach("curate")
        ctx.assert_(len(errs) == 2 and isinstance(errs[0].cause, Boom) and log == list(range(fail[0] + 1)),
                    "a failing curation stops it")
        return
    ctx.reach("ok")
    ctx.assert_(errs == [] and log == list(range(ncur)), "curations run in order")
    for i in range(ncur):
        model["cur%d" % i] = list(range(i + 1))
    ctx.assert_(same(ctx, mm.model, model), "the curated model")
    ctx.assert_(same(ctx, [mm.get("/a"), mm.get("/b"), mm.get("")], [model["a"], model["b"], model]), "get() its nodes")
    ctx.assert_(mm.get("/none", default=3) == 3, "or the default")


def rebuilt(ctx, n):
    """Every build starts anew, from the layers there are; the steps run for empty models too."""
    fail = [ctx.bool("fail%d" % i) for i in range(n)]
    rnd = []

    def curate(mm):
        if fail[len(rnd)]:
            raise Boom("c")
        if isinstance(mm.model, dict):
            mm.model["curated%d" % len(rnd)] = len(mm.model)
        elif isinstance(mm.model, list):
            mm.model.append("curated")
        else:
            mm.model = ("curated", mm.model)

    schema = {"properties": {"d": {"default": 8}}}
    if ctx.bool("plain"):
        schema = {}
    mm = model_class(schema)([curate])
    exp = None
    for i in range(n):
        for j in range(ctx.choice("add%d" % i, (0, 1) if i else (1,))):
            m = ctx.choice("m%d" % i, ({}, [], 0, "", False, 1, {"a": 0}, {"d": 3}))
            if isinstance(m, dict) and "a" in m:
                m = {"a": ctx.int("a%d" % i, 0, 9)}
            mm.add_submodel(m)
            exp = ref_merge(exp, m)
        want = snapshot(exp)
        if isinstance(want, dict):
            if schema:
                want.setdefault("d", 8)
            want["curated%d" % i] = len(want)
        elif isinstance(want, list):
            want = want + ["curated"]
        else:
            want = ("curated", want)
        st, got = ctx.outcome(mm.build)
        if fail[i]:
            ctx.reach("failed")
            ctx.assert_(st == "err" and isinstance(got, ValidationError) and mm._errored, "the curation failed")
        else:
            ctx.reach("curated")
            ctx.assert_(st == "ok" and not mm._errored, "it does not, now")
            if isinstance(want, tuple):
                ctx.assert_(type(got) is tuple and got[0] == "curated" and same(ctx, got[1], want[1]), "curated once")
            else:
                ctx.assert_(same(ctx, got, want), "the layers, curated once")
        rnd.append(i)


def cases_d05(tier):
    th = tier == "thorough"
    out = [("forced", dict(step=i, nerr=2, rep=2)) for i in range(4)]
    out += [("rebuilt", dict(n=n)) for n in ((1, 2, 3) if th else (1, 2))]
    return out + [("validated", dict(n=n, ncur=c)) for n, c in (((1, 0), (1, 2), (2, 1)) + (((3, 1), (2, 3)) if th else ()))]


# ---------------------------------------------------------------- D06
TRI = (None, True, False)


def is_int(v):
    return isinstance(v, int) and not isinstance(v, bool)


def defaults(ctx, typ, dflt, nested, nulls, after):
    """One property, every combination of flags."""
    args = dict(auto_default=ctx.choice("ad", TRI), auto_default_nulls=ctx.choice("adn", TRI),
                auto_remove_nulls=ctx.choice("arn", TRI))
    sub = {}
    if typ is not None:
        sub["type"] = typ
    d = ctx.int("default", 0, 9) if dflt == "int" else [1, {"x": 2}] if dflt == "list" else None    # a null may be the default
    if dflt:
        sub["default"] = d
    for flag in ("autoDefault", "autoDefaultNull", "autoRemoveNull"):
        v = ctx.choice(flag, ((ABSENT_,) + TRI) if nulls else (ABSENT_, True, False))
        if v != ABSENT_:
            sub[flag] = v
    schema = {"properties": {"b": True, "p": sub, "q": {"type": "integer"}}}
    if after:
        schema["properties"] = {"p": sub, "b": True, "q": {"type": "integer"}}
    kind = ctx.choice("value", ("absent", "null", "int", "text", "nan", "another nan"))
    inst = {}
    if kind != "absent":
        inst["p"] = {"null": None, "int": ctx.int("v", 0, 9), "text": "t", "nan": np.nan, "another nan": NAN}[kind]
    inst["q"] = ctx.int("w", 0, 9)
    keep = snapshot(inst)
    top = {"properties": {"n": schema}} if nested else schema
    whole = {"n": inst} if nested else inst
    keepschema = snapshot(top)
    errs = list(PandelVisitor(top, **args).iter_errors(whole))
    pick = lambda flag, arg: sub[flag] if sub.get(flag) is not None else args[arg]
    nullable = typ == "null" or isinstance(typ, list) and "null" in typ
    exp = dict(keep)
    if kind == "absent" and dflt and pick("autoDefault", "auto_default") and any(args.values()):
        exp["p"] = d
        ctx.reach("defaulted")
    elif kind in ("null", "nan", "another nan") and not nullable and any(args.values()):
        if dflt and pick("autoDefaultNull", "auto_default_nulls"):
            exp["p"] = d
            ctx.reach("null defaulted")
        elif pick("autoRemoveNull", "auto_remove_nulls"):
            del exp["p"]
            ctx.reach("null removed")
        else:
            ctx.reach("null kept")
    elif kind != "absent":
        ctx.reach("kept")
    ctx.assert_(same(ctx, inst, exp), "the default where asked for, else as it was")
    ctx.assert_(same(ctx, top, keepschema), "the schema is not altered")
    if dflt == "list" and "p" in inst and isinstance(inst["p"], list):
        ctx.assert_(inst["p"] is not d and inst["p"][1] is not d[1], "nor shared")
    ok = True
    if "p" in exp and typ is not None:
        v = exp["p"]
        nan = v is np.nan or v is NAN
        ok = ((v is None or nan) and nullable) or (is_int(v) and ("integer" in typ or "number" in typ))
        ok = ok or nan and "number" in typ
    ctx.assert_((errs == []) == ok, "and what results is validated")


ABSENT_ = "absent"


def nesting(ctx, flag):
    """Defaults are filled also inside of defaults, and never leak among instances."""
    schema = {"properties": {"x": {"default": {}, "properties": {
        "y": {"default": {"l": []}, "properties": {"z": {"default": 3}}}, "w": {}}}}}
    keep = snapshot(schema)
    pv = PandelVisitor(schema)
    insts = []
    for i in range(2):
        v = {}
        e = {"x": {"y": {"l": [], "z": 3}}}
        lev = ctx.choice("lev%d" % i, (0, 1, 2, 3))
        n = ctx.int("n%d" % i, 0, 9)
        if lev >= 1:
            v["x"] = {"w": n}
            e["x"]["w"] = n
        if lev >= 2:
            v["x"]["y"] = {}
            del e["x"]["y"]["l"]
        if lev >= 3:
            v["x"]["y"]["z"] = n
            e["x"]["y"]["z"] = n
        ctx.assert_(list(pv.iter_errors(v)) == [], "valid")
        ctx.assert_(same(ctx, v, e), "filled")
        ctx.assert_(same(ctx, schema, keep), "the schema is as it was")
        for x in nodes(v):
            if isinstance(x, list):
                x.append(i)
            else:
                x["spoiled"] = i
    ctx.reach("nested")


def off(ctx, n):
    """Without defaulting nothing changes."""
    schema = {"properties": {k: {"default": 1, "type": "integer"} for k in "abc"[:n]}}
    inst = {}
    nulls = 0
    for k in "abc"[:n]:
        what = ctx.choice(k, ("absent", "null", "int"))
        if what != "absent":
            inst[k] = None if what == "null" else ctx.int("v" + k, 0, 9)
            nulls += what == "null"
    keep = dict(inst)
    errs = list(PandelVisitor(schema, auto_default=False).iter_errors(inst))
    ctx.assert_(same(ctx, inst, keep), "unchanged")
    ctx.assert_(len(errs) == nulls, "and validated as is")
    ctx.reach("off")


def cases_d06(tier):
    out = []
    for typ in (None, "integer", "number", "null", ["integer", "null"], ["number"], ["null"]):
        for d in (None, "int", "list", "null"):
            if d == "null" and typ not in (None, "integer"):
                continue
            if tier == "quick" and ("number" in (typ or ()) or typ == ["null"]) and d != "int":
                continue
            for nested in ((0, 1) if tier == "thorough" or typ == "integer" and d == "int" else (0,)):
                out.append(("defaults", dict(typ=typ, dflt=d, nested=nested, nulls=tier == "thorough",
                                             after=(len(out) + nested) % 2)))
    return out + [("nesting", dict(flag=0))] + [("off", dict(n=n)) for n in (1, 2, 3)]


# ---------------------------------------------------------------- D07
def ref_units(t):
    t = t.strip()
    i = 0
    while i < len(t) and t[i] not in "[<":
        i += 1
    if i == len(t):
        return t, None
    end = "]" if t[i] == "[" else ">"
    if t[len(t) - 1] != end or i == len(t) - 1:
        return None
    units = t[i + 1:len(t) - 1]
    if any([c == end for c in units]):
        return None
    return t[:i].rstrip(), units


def units_any(ctx, n):
    t = ctx.str("t", n, "ab[]<>() \n")
    got = parse_value_with_units(t)
    exp = ref_units(t)
    ctx.observe(None if got is None else tuple(got))
    if exp is None:
        ctx.reach("rejected")
        ctx.assert_(got is None, "rejected")
    else:
        ctx.assert_(got is not None, "accepted")
        ctx.assert_(got.name == exp[0], "the name")
        ctx.assert_((got.units is None) if exp[1] is None else ctx.eq(got.units, exp[1]), "the units")
        ctx.reach("no units" if exp[1] is None else "units")


def units_written(ctx, n, m, sp, sq):
    """Any name and units, as written, come back."""
    name = ctx.str("name", n)
    units = ctx.str("units", m)
    for c in name:
        ctx.assume(c not in "[<")
    for c in units:
        ctx.assume(c != ("]" if sq else ">"))
    ctx.assume(name.strip() == name)
    got = parse_value_with_units(sp + name + sp + ("[%s]" if sq else "<%s>") % units + sp)
    ctx.assert_(got is not None and got.name == name and got.units == units, "as written")
    ctx.reach("written")


def cases_d07(tier):
    th = tier == "thorough"
    return [("units_any", dict(n=n)) for n in range(0, 7 if th else 6)] + [
        ("units_written", dict(n=n, m=m, sp=sp, sq=sq)) for n in ((0, 1, 2, 3) if th else (0, 1, 2))
        for m in ((0, 1, 2, 3) if th else (0, 1, 2)) for sp in ("", " ") for sq in (0, 1)]


# ---------------------------------------------------------------- D08
PATTERNS = {"^a": lambda k: k[:1] == "a", "b$": lambda k: k[-1:] == "b", "b|1": lambda k: any([c in "b1" for c in k]),
            "^.$": lambda k: len(k) == 1}


def is_num(v):
    return is_int(v) or isinstance(v, float)


def ref_type(t, v):
    if t == "null":
        return v is None
    if t == "boolean":
        return isinstance(v, bool)
    if t == "integer":
        return is_int(v)
    if t == "number":
        return is_num(v)
    if t == "string":
        return isinstance(v, str)
    if t == "array":
        return isinstance(v, list)
    return isinstance(v, dict)


def json_equal(a, b):
    for t in ("null", "boolean", "number", "string", "array", "object"):
        if ref_type(t, a) != ref_type(t, b):
            return False
    return bool(a == b)


def ref_valid(schema, v):
    if schema is True or schema is False:
        return schema
    if "type" in schema:
        ts = schema["type"]
        if not any([ref_type(t, v) for t in ([ts] if isinstance(ts, str) else ts)]):
            return False
    if "enum" in schema and not any([json_equal(v, e) for e in schema["enum"]]):
        return False
    if "minimum" in schema and is_num(v) and v < schema["minimum"]:
        return False
    if "maxLength" in schema and isinstance(v, str) and len(v) > schema["maxLength"]:
        return False
    if "pattern" in schema and isinstance(v, str) and not PATTERNS[schema["pattern"]](v):
        return False
    if isinstance(v, list):
        if "items" in schema and not all([ref_valid(schema["items"], x) for x in v]):
            return False
    if isinstance(v, dict):
        for k in schema.get("required", []):
            if k not in v:
                return False
        props, pats = schema.get("properties", {}), schema.get("patternProperties", {})
        for k, x in v.items():
            extra = True
            if k in props:
                extra = False
                if not ref_valid(props[k], x):
                    return False
            for p, sub in pats.items():
                if PATTERNS[p](k):
                    extra = False
                    if not ref_valid(sub, x):
                        return False
            if extra and "additionalProperties" in schema and not ref_valid(schema["additionalProperties"], x):
                return False
            if "propertyNames" in schema and not ref_valid(schema["propertyNames"], k):
                return False
    return True


def scalar(ctx, name, kinds):
    k = ctx.choice(name + "!", kinds)
    if k == "null":
        return None
    if k == "bool":
        return bool(ctx.bool(name))
    if k == "int":
        return ctx.int(name, -2, 3)
    if k == "float":
        return ctx.choice(name + ".f", [0.0, 1.0, 0.5, 2.0])
    if k == "text":
        return ctx.str(name, 1, "ab1")
    if k == "list":
        return [scalar(ctx, name + ".0", ["null", "int"])]
    if k == "[]":
        return []
    return {"a": 1}


KINDS = ["null", "bool", "int", "float", "text", "list", "[]", "object"]
FLAGS = [dict(auto_default=False), {}, dict(auto_default_nulls=True, auto_remove_nulls=True)]


def verdict(ctx, schema, inst, flags):
    keep, sch = snapshot(inst), snapshot(schema)
    st, errs = ctx.outcome(lambda: list(PandelVisitor(schema, **flags).iter_errors(inst)))
    ctx.assert_(st == "ok", "validation never crashes")
    ctx.observe(len(errs) > 0)
    want = ref_valid(schema, inst)
    ctx.assert_((errs == []) == want, "valid exactly when the standard says so")
    for e in errs:
        ctx.assert_(isinstance(e, ValidationError), "errors of validation")
    ctx.assert_(PandelVisitor(schema, **flags).is_valid(inst) == want, "the same when asked for a verdict")
    ctx.assert_(same(ctx, inst, keep) and same(ctx, schema, sch), "nothing is altered")
    ctx.reach("valid" if want else "invalid")


ENUMS = [[0], [1], [False], [True], [0, True], [1.0], [None], ["a"], [[]], [[1]], [{"a": 1}], [], [0.5, "1", None], [False, 1, 2]]


def enums(ctx, flags):
    enum = ctx.choice("enum", ENUMS)
    verdict(ctx, {"enum": enum} if ctx.bool("top") else {"properties": {}, "enum": enum}, scalar(ctx, "v", KINDS), flags)


def types(ctx, flags, bounded):
    names = ["null", "boolean", "integer", "number", "string", "array", "object"]
    t = ctx.choice("type", names)
    ts = [t, ctx.choice("type2", names)] if ctx.bool("two") else t
    schema = {"type": ts}
    if bounded and ctx.bool("bounded"):
        schema["minimum"] = ctx.int("min", -1, 2)
    v = scalar(ctx, "v", [k for k in KINDS if k != "float" or "integer" not in ts])
    if ctx.bool("nested"):
        schema, v = {"items": schema}, [v, v]
    verdict(ctx, schema, v, flags)


SUBS_ = [{}, True, False, {"type": "integer"}, {"enum": [1, None]}, {"minimum": 1}]
KEYS = ["a", "ab", "b", "1", ""]


def objects(ctx, flags, pats, props, names, n, few=False):
    schema = {}
    SUBS = SUBS_ if not few else [False, {"minimum": 1}, {}]
    if n == 0 and ctx.bool("typed"):
        schema["type"] = "object"
    if props:
        schema["properties"] = {k: ctx.choice("prop" + k, SUBS) for k in props}
    if pats:
        schema["patternProperties"] = {p: ctx.choice("pat" + p, SUBS) for p in pats}
    if names:
        schema["propertyNames"] = ctx.choice("names", [{"pattern": "^a"}, {"maxLength": 1}, {"enum": ["a", "1"]}, False, True])
    else:
        schema["additionalProperties"] = ctx.choice("extra", SUBS)
    if ctx.bool("required"):
        schema["required"] = ["a"]
    v = {}
    for i in range(n):
        v[ctx.choice("key%d" % i, KEYS)] = scalar(ctx, "v%d" % i, ["int", "null"])
    if n == 0 and ctx.bool("other"):
        v = scalar(ctx, "v", KINDS)
    verdict(ctx, schema, v, flags)


def cases_d08(tier):
    q = tier == "quick"
    out = []
    for flags in FLAGS:
        out.append(("enums", dict(flags=flags)))
        out.append(("types", dict(flags=flags, bounded=not q or flags == {})))
    for flags in FLAGS[:2] if q else FLAGS:
        for pats in ([], ["^a"], ["b|1"], ["b|1", "^a"]):
            for props in ([], ["a"]):
                for names in (0, 1):
                    for n in (0, 1, 2):
                        if q and pats == ["b|1"] and (names or flags != FLAGS[0] or n != 1):
                            continue
                        if q and n == 2 and (flags != FLAGS[0] or len(pats) + len(props) != 1 or names and pats):
                            continue
                        few = n == 2 or len(pats) + len(props) > 1
                        if q and few and flags != FLAGS[0] and n:
                            continue
                        out.append(("objects", dict(flags=flags, pats=pats, props=props, names=names, n=n, few=few)))
    return out


PROPERTIES = {
    "D04": {
        "cases": cases_d04,
        "bounds": {"quick": "2-4 layers of objects nested up to 3 deep, each node absent, null, any small integer, one-letter text, "
                            "list, array, object or one of any other class; schema defaults with 1-2 layers; built twice",
                   "thorough": "all node kinds over 3 layers, defaults with 3"},
        "outside": ["data-frames and series (D11)", "null items of lists"],
        "oracle": "recursive reference merge, object identities",
        "must_reach": ["merged", "nulls", "defaulted"],
        "budget": {"quick": 150, "thorough": 800},
    },
    "D05": {
        "cases": cases_d05,
        "bounds": {"quick": "each of the 4 steps succeeding, yielding 1-2 errors, raising or crashing, built twice; real validation "
                            "of 1-2 layers with any small values of two properties and 0-2 curate functions that may fail; "
                            "1-2 builds of one maker with layers added in between, empty and false models too",
                   "thorough": "3 layers, 3 curate functions, 3 builds"},
        "oracle": "the steps' outcomes",
        "must_reach": ["built", "failed", "prevalidate", "validate", "curate", "ok", "curated"],
        "budget": {"quick": 150, "thorough": 600},
    },
    "D06": {
        "cases": cases_d06,
        "bounds": "one property absent/null/not-a-number/any small integer/text, 7 types, before and after a property of any schema, 3 kinds of defaults (or none), all values of the tri-state flags and of the schema's; "
                  "nested defaults over sequences of two instances; up to 3 properties without defaulting",
        "outside": ["other schema keywords", "data-frames and arrays"],
        "oracle": "the documented rule per flag",
        "must_reach": ["defaulted", "null defaulted", "null removed", "null kept", "kept", "nested", "off"],
        "budget": {"quick": 150, "thorough": 600},
    },
    "D07": {
        "cases": cases_d07,
        "bounds": {"quick": "all texts up to 5 over ab[]<>() space newline; all names and units up to 2 of any characters",
                   "thorough": "texts up to 6, names and units up to 3"},
        "oracle": "splitting at the first bracket by index",
        "must_reach": ["rejected", "no units", "units", "written"],
        "budget": {"quick": 150, "thorough": 600},
    },
    "D08": {
        "cases": cases_d08,
        "bounds": {"quick": "14 enumerations, 7 types in pairs, and objects of <=2 keys out of 5, with up to 2 patterns, one "
                            "property, 6 sub-schemas for each and 5 for the names; values of 8 kinds with integers -2..3 and "
                            "texts of 1 character; 3 settings of the validator",
                   "thorough": "objects of <=2 keys for all of them"},
        "outside": ["floats for the `integer` type (never integers here, unlike Draft 6 and later)", "other keywords, which "
                    "are left to the library", "NaNs, which count as nulls"],
        "oracle": "own evaluator of the keywords that the project overrides, written out of the JSON-schema specification",
        "must_reach": ["valid", "invalid"],
        "budget": {"quick": 200, "thorough": 600},
    },
}
