"""Arrays, series and frames in models: validation and merging."""
import numpy as np
import pandas as pd

from harness.h_pandel import is_num, ref_type, ref_valid, same, snapshot
from jsonschema import ValidationError
from pandalone.pandata import Pandel, PandelVisitor

FLAGS = [dict(auto_default=False), {}, dict(auto_default=True, auto_default_nulls=True, auto_remove_nulls=True)]


# ---------------------------------------------------------------- containers, out of plain values
def objects(values):
    out = np.empty(len(values), dtype=object)
    for i, v in enumerate(values):
        out[i] = v
    return out


def contained(how, v):
    """The container of that kind equal to the list or dictionary."""
    if how == "array":
        return objects(v)
    if how == "tuple":
        return tuple(v)
    if how == "numbers":
        return np.array(v)
    if how == "series":
        return pd.Series(objects(v), dtype=object)
    if how == "keyed":
        return pd.Series(objects(list(v.values())), index=list(v), dtype=object)
    if how == "keyed numbers":
        return pd.Series(list(v.values()), index=list(v))
    if how == "frame":
        return pd.DataFrame({k: pd.Series(objects(x), dtype=object) for k, x in v.items()}, columns=list(v))
    return pd.DataFrame(v)


def plain(v):
    """Back to plain values."""
    if isinstance(v, pd.DataFrame):
        return {k: [plain(x) for x in v[k].values] for k in v.columns}
    if isinstance(v, pd.Series):
        return {k: plain(x) for k, x in zip(v.index, v.values)}
    if isinstance(v, (np.ndarray, tuple)):
        return [plain(x) for x in v]
    if isinstance(v, np.generic):
        return v.item()
    if isinstance(v, dict):
        return {k: plain(x) for k, x in v.items()}
    if isinstance(v, list):
        return [plain(x) for x in v]
    return v


class Both:
    """What a series is: a list and an object at once."""

    def __init__(self, values, keys=None):
        self.list = list(values)
        self.dict = dict(zip(range(len(self.list)) if keys is None else keys, self.list))


def valid(schema, v):
    if isinstance(schema, bool) or not isinstance(v, Both):
        if isinstance(schema, dict) and isinstance(v, (list, dict)):
            items = v if isinstance(v, list) else list(v.values())
            for k, lo in (("minItems", 1), ("maxItems", 0)):
                if k in schema and isinstance(v, list) and (len(v) < schema[k] if lo else len(v) > schema[k]):
                    return False
            for k, lo in (("minProperties", 1), ("maxProperties", 0)):
                if k in schema and isinstance(v, dict) and (len(v) < schema[k] if lo else len(v) > schema[k]):
                    return False
            if any([isinstance(x, Both) for x in items]):   # columns of frames
                subs = dict(schema)
                props, extra = subs.pop("properties", {}), subs.pop("additionalProperties", True)
                if not ref_valid(subs, {k: None for k in v}):
                    return False
                return all([valid(props[k] if k in props else extra, x) for k, x in v.items()])
        return ref_valid(schema, v)
    rest = {k: s for k, s in schema.items() if k not in ("type", "enum")}
    for k in ("type", "enum"):
        if k in schema and not ref_valid({k: schema[k]}, v.list) and not ref_valid({k: schema[k]}, v.dict):
            return False
    return valid(rest, v.list) and valid(rest, v.dict)


# ---------------------------------------------------------------- D10
def cell(ctx, name, kinds):
    k = ctx.choice(name + "!", kinds) if len(kinds) > 1 else kinds[0]
    if k == "int":
        return ctx.int(name, -2, 3)
    if k == "text":
        return ctx.str(name, 1, "ab")
    if k == "bool":
        return ctx.choice(name, [False, True])
    if k == "float":
        return ctx.choice(name, [0.0, 1.0, 1.5])
    if k == "number":
        return ctx.choice(name, [-1, 0, 1, 2])
    return None if k == "null" else [ctx.int(name, 0, 1)]


def judged(ctx, schema, inst, want, flags):
    sch = snapshot(schema)
    st, errs = ctx.outcome(lambda: list(PandelVisitor(schema, **flags).iter_errors(inst)))
    ctx.assert_(st == "ok", "validation never crashes")
    ctx.observe(len(errs) > 0)
    for e in errs:
        ctx.assert_(isinstance(e, ValidationError), "errors of validation")
    ctx.assert_((errs == []) == want, "valid exactly when the equal plain values are")
    ctx.assert_(same(ctx, schema, sch), "the schema is left as it was")
    ctx.reach("valid" if want else "invalid")


TYPES = ["null", "boolean", "integer", "number", "string", "array", "object"]
ITEMS = [{"type": t} for t in TYPES] + [{"type": ["null", "integer"]}, {"minimum": 1}, {"enum": [1]}, {"enum": [0, None]},
                                        {"enum": [True]}, {"enum": [False, "a"]}, {"enum": [[1]]}, False, True]
WHOLE = [{"type": t} for t in TYPES] + [{"type": ["null", "array"]}, {"enum": [[1], [1, 0]]}, {"enum": [[], 1]}, {"enum": [[None], ["a"]]},
                                        {"enum": []}, {"minItems": 2}, {"maxItems": 1}]


def sequences(ctx, how, kinds, n, whole, flags, nested):
    """Lists within arrays, tuples and series."""
    schema = ctx.choice("schema", WHOLE if whole else ITEMS)
    if how == "tuple" and whole and "enum" in schema:
        return
    if not whole:
        if kinds == ["float"] and "integer" in str(schema):
            return
        schema = {"items": schema}
    v = [cell(ctx, "v%d" % i, kinds) for i in range(n)]
    inst = contained(how, v)
    if how == "series" and schema == {"type": "object"}:
        return
    want = valid(schema, v)
    if nested:
        schema, inst = ({"items": schema}, [inst]) if nested == 1 else ({"properties": {"x": schema}}, {"x": inst, "y": 1})
    judged(ctx, schema, inst, want, flags)
    inst = inst[0] if nested == 1 else inst["x"] if nested else inst
    ctx.assert_(same(ctx, [plain(x) for x in inst], v), "the values are left as they were")


SUBS = [{"type": "integer"}, {"type": ["null", "string"]}, {"minimum": 1}, {"enum": [1, None]}, {"enum": [True]}, {}, False]


def within(ctx, what, schema, inst):
    """The rules apply the same to what is inside of others."""
    if what == "names" and ctx.bool("within"):
        return {"properties": {"in": schema}}, {"in": inst}
    return schema, inst


def keyed(ctx, how, kinds, keys, flags, more):
    """Objects within series."""
    schema = {}
    if ctx.bool("props"):
        schema["properties"] = {"a": ctx.choice("prop", SUBS)}
    what = ctx.choice("what", ["type", "enum", "additional", "names", "required", "patterns", "size"] if not more else ["additional", "patterns"])
    if what == "type":
        schema["type"] = ctx.choice("type", TYPES)
    elif what == "enum":
        schema["enum"] = ctx.choice("enum", [[{"a": 1}], [[1]], [1, None], [{"a": 1, "b": 0}, {}]])
    elif what == "additional":
        schema["additionalProperties"] = ctx.choice("extra", SUBS)
    elif what == "names":
        schema["propertyNames"] = ctx.choice("names", [{"pattern": "^a"}, {"maxLength": 1}, False])
    elif what == "required":
        schema["required"] = ctx.choice("required", [["a"], ["b", "a"]])
    elif what == "patterns":
        schema["patternProperties"] = {"^a": ctx.choice("pattern", SUBS)}
        schema["additionalProperties"] = ctx.bool("extra") and True
    else:
        schema[ctx.choice("size", ["minProperties", "maxProperties"])] = ctx.choice("len", [0, 1, 2])
    v = {k: cell(ctx, "v" + k, kinds) for k in keys}
    inst = contained(how, v)
    judged(ctx, *within(ctx, what, schema, inst), valid(schema, Both(v.values(), v)), flags)
    ctx.assert_(same(ctx, plain(inst), v), "the values are left as they were")


COLS = [{"items": {"type": "integer"}}, {"items": {"minimum": 1}}, {"type": "array"}, {"type": "integer"}, {"minItems": 2},
        {"items": {"enum": [1, None]}}, {"enum": [[1], [0, 1]]}, {}, False]


def frames(ctx, how, kinds, keys, rows, flags):
    """Objects of lists within frames."""
    schema = {}
    if ctx.bool("props"):
        schema["properties"] = {"a": ctx.choice("prop", COLS)}
    what = ctx.choice("what", ["type", "enum", "additional", "names", "required"])
    if what == "type":
        schema["type"] = ctx.choice("type", TYPES)
    elif what == "enum":
        schema["enum"] = ctx.choice("enum", [[{"a": [1]}], [[1]], [{"a": [1, 0]}, {"a": [1], "b": [0]}]])
    elif what == "additional":
        schema["additionalProperties"] = ctx.choice("extra", COLS)
    elif what == "names":
        schema["propertyNames"] = ctx.choice("names", [{"pattern": "^a"}, {"maxLength": 1}, False])
    else:
        schema["required"] = ctx.choice("required", [["a"], ["b", "a"]])
    v = {k: [cell(ctx, "v%s%d" % (k, i), kinds) for i in range(rows)] for k in keys}
    inst = contained(how, v)
    if what == "enum":
        want = ref_valid({"enum": schema["enum"]}, v) and valid({k: s for k, s in schema.items() if k != "enum"}, {k: Both(x) for k, x in v.items()})
    else:
        want = valid(schema, {k: Both(x) for k, x in v.items()})
    judged(ctx, *within(ctx, what, schema, inst), want, flags)
    ctx.assert_(same(ctx, plain(inst), v), "the values are left as they were")


def defaulted(ctx, how, kinds, keys, flags):
    """Defaults and nulls of series and frames."""
    sub = {"type": ctx.choice("type", ["integer", ["null", "integer"]])} if ctx.bool("typed") else {}
    if ctx.bool("default"):
        sub["default"] = ctx.choice("value", [5, 0])
    schema = {"properties": {"c": sub}}
    v = {k: cell(ctx, "v" + k, kinds) for k in keys}
    inst = contained("keyed", v) if how == "keyed" else contained("frame", {k: [x] for k, x in v.items()})
    want = dict(v)
    nullable = "null" in sub.get("type", [])
    if "default" in sub and flags.get("auto_default", True) and "c" not in v:
        want["c"] = sub["default"]
        ctx.reach("defaulted")
    elif "c" in v and v["c"] is None and not nullable and how == "keyed":
        if "default" in sub and flags.get("auto_default_nulls"):
            want["c"] = sub["default"]
            ctx.reach("null defaulted")
        elif flags.get("auto_remove_nulls"):
            del want["c"]
            ctx.reach("null removed")
    st, errs = ctx.outcome(lambda: list(PandelVisitor(schema, **flags).iter_errors(inst)))
    ctx.assert_(st == "ok", "validation never crashes")
    got = plain(inst) if how == "keyed" else {k: x[0] for k, x in plain(inst).items()}
    ctx.assert_(same(ctx, got, want), "absent values are defaulted, nulls defaulted or removed when asked for")
    if how == "keyed":
        ok = "c" not in want or "type" not in sub or is_num(want["c"]) or nullable and want["c"] is None
        ctx.assert_((errs == []) == ok, "and then validated")


NANS = {"numpy's": np.nan, "another": float("nan"), "float64": np.float64("nan"), "float32": np.float32("nan")}
HOLES = ["null", "number", "integer", "string", "boolean", ["null", "integer"], ["null", "string"], "object", "array"]


def holes(ctx, how, n):
    """A missing number (nan) is a null, besides being a number, whichever object it is, and in whatever it is contained."""
    kinds = ["numpy's", "float"] if "numbers" in how else ["numpy's", "another", "float64", "float32", "float"]
    ks = [ctx.choice("v%d" % i, kinds) for i in range(n)]
    v = [1.5 if k == "float" else NANS[k] for k in ks]
    typ = ctx.choice("type", HOLES)
    keys = ["a", "b", "c"][:n]
    if how in ("dict", "keyed", "keyed numbers"):
        inst = dict(zip(keys, v))
        if how != "dict":
            inst = contained(how, inst)
        schema = {"additionalProperties": {"type": typ}}
    else:
        inst = v if how == "list" else pd.Series(v, dtype=float) if how == "series numbers" else contained(how, v)
        schema = {"items": {"type": typ}}
    want = all([k == "float" and "number" in typ or k != "float" and ("number" in typ or "null" in typ) for k in ks])
    st, errs = ctx.outcome(lambda: list(PandelVisitor(schema, auto_default=ctx.bool("ad")).iter_errors(inst)))
    ctx.assert_(st == "ok", "validation never crashes")
    ctx.assert_((errs == []) == want, "missing numbers are nulls")
    if "null" in typ and want and "float" not in ks:
        ctx.reach("missing")


def cases_d10(tier):
    q = tier == "quick"
    out = [("holes", dict(how=how, n=n)) for how in ("list", "tuple", "array", "numbers", "series", "series numbers", "dict", "keyed", "keyed numbers")
           for n in ((1, 2) if q else (1, 2, 3))]
    for flags in FLAGS[:1] if q else FLAGS:
        for how, kinds in (("array", ["int", "null"]), ("array", ["text", "bool"]), ("series", ["int", "null"]), ("tuple", ["int", "list"]),
                           ("numbers", ["number"]), ("numbers", ["bool"]), ("numbers", ["float"]), ("array", ["list", "int"])):
            for n in (0, 1, 2) if q else (0, 1, 2, 3):
                for whole in (0, 1):
                    out.append(("sequences", dict(how=how, kinds=kinds, n=n, whole=whole, flags=flags, nested=0)))
        for nested in (1, 2):
            for how in ("array", "series"):
                for whole in (0, 1):
                    out.append(("sequences", dict(how=how, kinds=["int", "text"], n=1, whole=whole, flags=FLAGS[1], nested=nested)))
    for flags in FLAGS[:2]:
        for how, kinds in (("keyed", ["int", "null"]), ("keyed", ["text", "bool"]), ("keyed numbers", ["number"]), ("keyed numbers", ["bool"])):
            for keys in ([], ["a"], ["b"], ["a", "b"]) if flags == {} else (["a", "b"],):
                if keys or how == "keyed":
                    out.append(("keyed", dict(how=how, kinds=kinds[:1] if q and len(keys) == 2 else kinds, keys=keys, flags=flags, more=0)))
    for how, kinds in (("frame", ["int"]), ("frame", ["int", "null"]), ("frame", ["text"]), ("numbers frame", ["number"]), ("numbers frame", ["bool"])):
        for keys, rows in (([], 0), (["a"], 1), (["b"], 1), (["a"], 2), (["a", "b"], 1), (["b", "ab"], 2)):
            if keys and (len(kinds) == 1 or rows * len(keys) < 3 or not q):
                out.append(("frames", dict(how=how, kinds=kinds, keys=keys, rows=rows, flags=FLAGS[len(keys) % 2])))
    for flags in FLAGS + [dict(auto_default=False, auto_default_nulls=True), dict(auto_default=False, auto_remove_nulls=True)]:
        for how in ("keyed", "frame"):
            for keys in ([], ["a"], ["c"], ["a", "c"]):
                if keys or how == "keyed":
                    out.append(("defaulted", dict(how=how, kinds=["int", "null"], keys=keys, flags=flags)))
    return out


# ---------------------------------------------------------------- D11
NULL = object()


def isnull(x):
    return x is None or isinstance(x, float) and x != x


def layer(ctx, name, kind, cols, rows, holes):
    """One branch, in plain values: {column: {row: value}} or {key: value}, or None."""
    if kind == "none":
        return None

    def val(n):
        return None if holes and ctx.bool(n + "?") else ctx.int(n, -9, 9)

    if kind in ("series", "keys"):
        return {k: val("%s.%s" % (name, k)) for k in cols}
    return {k: {r: val("%s.%s.%s" % (name, k, r)) for r in rows} for k in cols}


def branch(kind, v):
    if kind == "frame":
        rows = list(list(v.values())[0])
        return pd.DataFrame({k: pd.Series(objects(list(x.values())), index=rows, dtype=object) for k, x in v.items()}, columns=list(v))
    if kind == "series":
        return contained("keyed", v)
    if kind == "lists":
        return {k: list(x.values()) for k, x in v.items()}
    return v if v is None else dict(v)


def table(v):
    """The cells of a frame or series, by position of their row and by key."""
    if isinstance(v, pd.DataFrame):
        return {k: {r: plain(x) for r, x in zip(v.index, v[k].values)} for k in v.columns}
    return {k: plain(x) for k, x in zip(v.index, v.values)}


def over(a, b):
    """The cells of `b` over those of `a`; rows are those of the lower frame."""
    if a is None or b is None:
        return a if b is None else b
    if not any([isinstance(x, dict) for x in list(a.values()) + list(b.values())]):
        out = dict(a)
        for k, x in b.items():
            if k not in out or x is not None:
                out[k] = x
        return out
    rows = list(list(a.values())[0])
    out = {k: {r: x[r] if k not in b or b[k].get(r) is None else b[k][r] for r in rows} for k, x in a.items()}
    for k, x in b.items():
        if k not in out:
            out[k] = {r: x.get(r) for r in rows}
    return out


def alike(ctx, got, want):
    if isinstance(want, dict):
        return isinstance(got, dict) and len(got) == len(want) and all([k in got and alike(ctx, got[k], x) for k, x in want.items()])
    if want is None or isnull(got):
        return want is None and isnull(got)
    return bool(ctx.eq(got, want))


def merged(ctx, layers, holes, nest):
    """layers: (kind, columns or keys, rows), the lowest first."""
    class Model(Pandel):
        def _get_json_schema(self, is_prevalidation):
            return {}

    vals = [layer(ctx, "m%d" % i, *a, holes) for i, a in enumerate(layers)]
    given = [branch(a[0], v) for a, v in zip(layers, vals)]
    before = [v if not isinstance(x, (pd.DataFrame, pd.Series)) else table(x) for x, v in zip(given, vals)]
    mm = Model()
    for x in given:
        mm.add_submodel({"k": x} if nest else x)
    want = None
    for v in vals:
        want = over(want, v)
    for _ in range(2):
        st, got = ctx.outcome(mm.build)
        ctx.assert_(st == "ok", "merges")
        got = got["k"] if nest else got
        kind = pd.DataFrame if any([a[0] == "frame" for a in layers]) else pd.Series
        ctx.assert_(isinstance(got, kind), "a frame remains a frame, a series a series")
        ctx.assert_(alike(ctx, table(got), want), "every cell of the upper layers, and of the lower where these have none")
        for x, v in zip(given, before):
            if isinstance(x, (pd.DataFrame, pd.Series)):
                ctx.assert_(alike(ctx, table(x), v), "the layers are left as they were")
        if isinstance(got, pd.DataFrame):     # whatever is done to the model concerns nobody else
            for k in got.columns:
                for r in got.index:
                    got.loc[r, k] = 77
        else:
            for r in got.index:
                got[r] = 77
        for x, v in zip(given, before):
            if isinstance(x, (pd.DataFrame, pd.Series)):
                ctx.assert_(alike(ctx, table(x), v), "no cell is shared with a layer")
    ctx.reach("series" if kind is pd.Series else "frame")
    if None in vals:
        ctx.reach("null layer")


def arrays(ctx, where, lower):
    """Arrays and other values are cloned, and overwrite."""
    class Model(Pandel):
        def _get_json_schema(self, is_prevalidation):
            return {}

    def make(name):
        vals = [ctx.int("%s%d" % (name, i), 0, 9) for i in range(2)]
        return vals, objects(vals) if ctx.bool(name + " is array") else set(vals)

    def cells(x):
        return [y for y in x] if isinstance(x, np.ndarray) else x

    vals, x = make("x")
    was = cells(clone(x))
    up = {"k": x} if where == "key" else {"k": {"j": x}} if where == "deep" else {"k": [x, 1]} if where == "list" else {"k": ({"j": x},)}
    mm = Model()
    if lower == "none":
        mm.add_submodel({"k": None, "z": 1})
    elif lower == "other":
        mm.add_submodel({"k": {"j": objects([1]), "i": 2}})
    mm.add_submodel(up)
    if lower == "above":
        mm.add_submodel({"z": 1})
    for _ in range(2):
        st, got = ctx.outcome(mm.build)
        ctx.assert_(st == "ok", "merges")
        y = got["k"] if where == "key" else got["k"]["j"] if where == "deep" else got["k"][0] if where == "list" else got["k"][0]["j"]
        ctx.assert_(type(y) is type(x) and alike_set(ctx, cells(y), was), "the value of the layer")
        ctx.assert_(y is not x, "cloned")
        if isinstance(y, np.ndarray):
            y[0] = 77
        else:
            y.clear()
        ctx.assert_(alike_set(ctx, cells(x), was), "the layers are left as they were")
    ctx.reach("array")


def clone(x):
    return objects(list(x)) if isinstance(x, np.ndarray) else set(x)


def alike_set(ctx, a, b):
    if isinstance(a, set):
        return a == b
    return ctx.eq(a, b)


def cases_d11(tier):
    q = tier == "quick"
    out = [("arrays", dict(where=w, lower=l)) for w in ("key", "deep", "list", "tuple") for l in ("", "none", "other", "above")]
    one, two = [0], [0, 1]
    F, S, N = "frame", "series", ["none", [], []]
    for holes in (False, True):
        for a, b in ((["x"], ["x"]), (["x", "y"], ["x"]), (["x"], ["y", "x"]), (["x"], ["y"]), (["x", "y"], ["y", "z"])):
            for rows in ((one, one), (two, two)) + (((two, one), (one, two), (["a", "b"], ["b", "c"])) if len(a) == 1 or not q else ()):
                if q and holes and len(a) + len(b) > 3 and len(rows[0]) == 2:
                    continue
                out.append(("merged", dict(layers=[[F, a, rows[0]], [F, b, rows[1]]], holes=holes, nest=1)))
            for nest in (0, 1):
                out.append(("merged", dict(layers=[[S, a, []], [S, b, []]], holes=holes, nest=nest)))
            out.append(("merged", dict(layers=[[S, a, []], ["keys", b, []]], holes=holes, nest=1)))
            out.append(("merged", dict(layers=[["keys", a, []], [S, b, []]], holes=holes, nest=1)))
            out.append(("merged", dict(layers=[[F, a, two], ["lists", b, two]], holes=False, nest=1)))
            out.append(("merged", dict(layers=[["lists", a, two], [F, b, two]], holes=False, nest=1)))
        out.append(("merged", dict(layers=[[F, ["x"], one], N], holes=holes, nest=1)))
        out.append(("merged", dict(layers=[N, [F, ["x", "y"], two]], holes=holes, nest=1)))
        out.append(("merged", dict(layers=[[S, ["x"], []], N], holes=holes, nest=1)))
        out.append(("merged", dict(layers=[N, [S, ["x", "y"], []]], holes=holes, nest=1)))
        out.append(("merged", dict(layers=[[F, ["x"], one], N, [F, ["y"], one]], holes=holes, nest=1)))
        out.append(("merged", dict(layers=[[F, ["x"], one], [F, ["x", "y"], one], [F, ["y", "x"], one]], holes=holes, nest=0)))
        out.append(("merged", dict(layers=[[S, ["x"], []], [S, ["x", "y"], []], [S, ["z", "x"], []]], holes=holes, nest=1)))
        out.append(("merged", dict(layers=[[S, ["x", "y"], []]], holes=holes, nest=0)))
        out.append(("merged", dict(layers=[[F, ["x", "y"], two]], holes=holes, nest=0)))
    return out


PROPERTIES = {
    "D10": {
        "cases": cases_d10,
        "bounds": {"quick": "arrays, tuples and series of <=2 items, series of <=2 keys, frames of <=2 columns and rows, alone or within lists and "
                            "objects; their values any of integers -2..3, texts of 1 character, nulls, booleans, lists; or 3-4 numbers in numeric "
                            "types; missing numbers of 4 kinds in 9 kinds of containers; 16 schemas for items, 14 for sequences, objects by 7 keywords with 7 sub-schemas, 9 for columns; defaults of one property",
                   "thorough": "up to 3 items, 3 settings of the validator"},
        "outside": ["NaNs among the values of enumerations", "enumerations and tuples", "the number of columns of frames (their length is "
                    "that of rows, as documented)", "columns of frames when demanded to be objects", "keywords left to the library", "nulls in frames"],
        "oracle": "the evaluator of D08 on the plain lists and objects",
        "must_reach": ["missing", "valid", "invalid", "defaulted", "null defaulted", "null removed"],
        "budget": {"quick": 240, "thorough": 600},
    },
    "D11": {
        "cases": cases_d11,
        "bounds": {"quick": "2-3 layers of frames (<=2 columns and rows of 3) or series (<=2 keys), some of plain objects or null, each "
                            "cell null or any integer -9..9; built twice; arrays and sets of 2 values at 4 places", "thorough": "more indices of rows"},
        "outside": ["rows which the lower frame does not have (documented as not implemented)", "the order of columns", "numeric types of "
                    "columns", "plain nested rows"],
        "oracle": "cell-wise overlay of plain dictionaries",
        "must_reach": ["series", "frame", "null layer", "array"],
        "budget": {"quick": 120, "thorough": 600},
    },
}
