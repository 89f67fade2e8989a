"""The operations that a model-maker has been given, and the paths of a schema."""
from pandalone.pandata import JSchema, ModelOperations, Pandel, build_all_jsonpaths, resolve_jsonpointer

FIELDS = ("inp", "out", "conv")
EMPTY = {"none": None, "list": [], "map": {}}


def value(ctx, name, n):
    """The arguments of an operation, or something empty."""
    kind = ctx.choice("%s.kind" % name, ("args", "none", "map", "list")[:2 + n])
    if kind == "args":
        return [ctx.str("%s.arg" % name, 1, "ab")]
    if kind == "map":
        return {ctx.str("%s.arg" % name, 1, "ab"): ["CSV"]}
    return EMPTY[kind]


class Maker(Pandel):
    def _get_json_schema(self, is_prevalidation):
        return {}


def operations(ctx, calls, given, n, bad=-1):
    """A history of changes of the global operations; `given`: the fields that may be given, by call; `bad`: the call that may be refused."""
    mm, other = Pandel(), Pandel()
    fresh = other._global_cntxt
    ref = dict.fromkeys(FIELDS)
    for i in range(calls):
        how = ctx.choice("how%d" % i, ("kwds", "ops", "strange", "unknown")[:4 if i == bad else 2])
        kwds = {f: value(ctx, "kw%d.%s" % (i, f), n) for f in given[i][:1 if how != "kwds" else None] if ctx.bool("has%d.%s" % (i, f))}
        before = mm._global_cntxt
        if how == "strange":
            st, ex = ctx.outcome(mm.mod_global_operations, ctx.choice("strange%d" % i, ("inp", ("a", "b", "c"), {"inp": 1})), **kwds)
            ctx.assert_(st == "err" and isinstance(ex, AssertionError), "only operations are taken")
            ctx.reach("strange")
        elif how == "unknown":
            st, ex = ctx.outcome(mm.mod_global_operations, foo=3, **kwds)
            ctx.assert_(st == "err" and isinstance(ex, (ValueError, TypeError)), "unknown operations are refused")
        else:
            args = []
            if how == "ops":
                ops = {f: value(ctx, "op%d.%s" % (i, f), n) for f in given[i]}
                args = [ModelOperations(**ops)]
                for f, v in ops.items():
                    if v:
                        ref[f] = v
            for f, v in kwds.items():
                ref[f] = v
            st, ex = ctx.outcome(mm.mod_global_operations, *args, **kwds)
            ctx.assert_(st == "ok" and ex is None, "operations are taken")
            if args:
                ctx.assert_(all([getattr(args[0], f) == ops.get(f) for f in FIELDS]), "those given are not altered")
            ctx.reach("changed" if i else "first")
        got = mm._global_cntxt
        ctx.assert_(isinstance(got, ModelOperations), "they are always complete")
        for f in FIELDS:
            ctx.assert_(getattr(got, f) == ref[f], "the last one given for %s" % f)
        if st == "err":
            ctx.assert_(tuple(before) == tuple(got), "and a refused change does nothing")
    ctx.assert_(other._global_cntxt == fresh and Pandel()._global_cntxt == fresh, "other makers are not concerned")


def contexts(ctx, n):
    """The contexts by path, of submodels and of the unified model."""
    mm = Maker()
    ctx.assert_(mm.unified_contexts is None, "none at first")
    good = {ctx.str("path", n, "/a"): ModelOperations(inp=["CSV"])}
    kind = ctx.choice("kind", ("map", "empty", "ops", "pairs", "text"))
    given = {"map": good, "empty": {}, "ops": ModelOperations(inp=["CSV"]), "pairs": [("/", ModelOperations())], "text": "/a"}[kind]
    ok = kind in ("map", "empty")

    def install():
        mm.unified_contexts = given

    st, ex = ctx.outcome(install)
    ctx.assert_(st == ("ok" if ok else "err") and (ok or isinstance(ex, AssertionError)), "a map only")
    ctx.assert_(mm.unified_contexts is (given if ok else None), "installed, or not")
    st, ex = ctx.outcome(mm.add_submodel, {"a": 1}, given)
    ctx.assert_(st == ("ok" if ok else "err") and (ok or isinstance(ex, AssertionError)), "a map only, for submodels")
    ctx.assert_(len(mm._submodel_tuples) == (1 if ok else 0), "a refused submodel is not added")
    mm._submodel_tuples[:] = []
    mm.add_submodel([1, {"a": "b"}])
    ctx.assert_(len(mm._submodel_tuples) == 1 and list(mm.build_iter()) == [] and mm.model == [1, {"a": "b"}], "it still builds")
    ctx.reach("installed" if ok else "refused")


# ---------------------------------------------------------------- the paths of a schema
def schema(ctx, name, depth, width, n, emp, forks):
    """A schema, its (possibly repeated) expected paths, and a model having them."""
    fork = forks[0] if depth and forks and ctx.bool("%s.fork" % name) else None
    props = ctx.choice("%s.props" % name, tuple(range(width + 1))) if depth else 0
    out, paths, model = {"title": "x"}, [], {}
    if fork:
        alts = [schema(ctx, "%s.%d" % (name, i), depth - 1, 1, n, emp, forks[1:]) for i in range(2)]
        out[fork] = [a[0] for a in alts]
        for a in alts:
            paths += a[1]
            model.update(a[2])
    if props:
        out["properties"] = {}
        for i in range(props):
            key = ctx.str("%s.key%d" % (name, i), n, "ab")
            for k in out["properties"]:
                ctx.assume(k != key)
            sub, spaths, smodel = schema(ctx, "%s.p%d" % (name, i), depth - 1, width, n, emp, forks)
            out["properties"][key] = sub
            paths += [(key,) + p for p in spaths]
            model[key] = smodel
    else:
        paths.append(())
        if emp:
            out["properties"] = {}
    return out, paths, model


def paths(ctx, depth, width, n, forks):
    sch, exp, model = schema(ctx, "s", depth, width, n, ctx.bool("emp"), forks)
    keep = dict(sch)
    got = build_all_jsonpaths(sch)
    exp = ["".join(["/" + k for k in p]) for p in exp]
    ctx.observe(sorted(got))
    for p in exp:
        ctx.assert_(p in got, "every node without properties is listed")
    for p in got:
        ctx.assert_(p in exp, "and nothing else")
        if not forks:
            ctx.assert_(isinstance(resolve_jsonpointer(model, p, None), dict), "each path leads to a node")
    ctx.assert_(sch == keep, "the schema is as it was")
    ctx.reach("nested" if len(exp) > 1 else "single")


KEYS = ("type", "items", "required", "title", "description", "minimum", "exclusiveMinimum", "maximum", "exclusiveMaximum",
        "patternProperties", "pattern", "enum", "allOf", "oneOf", "anyOf")


def jschema(ctx, keys, n):
    """A schema built attribute by attribute."""
    js, exp = JSchema(), {}
    ctx.assert_(js.todict() == {}, "nothing at first")
    for k in keys:
        if ctx.bool("has." + k):
            v = ctx.str("v." + k, n, "ab") if ctx.bool("text." + k) else None
            setattr(js, k, v)
            exp[k] = v
    got = js.todict()
    ctx.assert_(len(got) == len(exp) and all([k in got and got[k] is exp[k] for k in exp]), "what has been set")
    ctx.assert_(JSchema().todict() == {}, "others are not concerned")
    ctx.reach("built")


def cases_d12(tier):
    q = tier == "quick"
    out = [("operations", dict(calls=1, given=[list(FIELDS)], n=0)), ("operations", dict(calls=1, given=[["conv", "inp"]], n=2, bad=0)),
           ("operations", dict(calls=2, given=[["inp"], ["inp", "out"]], n=1)),
           ("operations", dict(calls=2, given=[["inp", "conv"], ["inp"]], n=1, bad=1)),
           ("operations", dict(calls=3, given=[["out"], ["out"], ["out"]], n=0, bad=-1)),
           ("contexts", dict(n=2)),
           ("paths", dict(depth=2, width=2, n=1, forks=[])), ("paths", dict(depth=3, width=1, n=2, forks=[]))]
    for f in ("oneOf", "anyOf", "allOf"):
        out += [("paths", dict(depth=1, width=2, n=1, forks=[f])), ("paths", dict(depth=2, width=1, n=1, forks=[f, "anyOf"]))]
    for i in range(0, 15, 5):
        out.append(("jschema", dict(keys=list(KEYS[i:i + 5]), n=1)))
    if not q:
        out += [("operations", dict(calls=2, given=[list(FIELDS)] * 2, n=2)),
                ("operations", dict(calls=4, given=[["out"]] * 4, n=1)),
                ("paths", dict(depth=2, width=2, n=1, forks=["allOf"])), ("paths", dict(depth=3, width=1, n=1, forks=["oneOf", "allOf"])),
                ("jschema", dict(keys=list(KEYS[:9]), n=2))]
    return out


PROPERTIES = {
    "D12": {
        "cases": cases_d12,
        "bounds": {"quick": "up to 3 changes of the operations, by keyword or by operations (or refused), of 1-3 fields that are empty or hold "
                            "texts of one letter; schemas nesting properties up to 3 levels, with alternatives of each of 3 kinds, names "
                            "up to 2 letters; schema objects with up to 5 attributes set out of all 15 ones",
                   "thorough": "up to 4 changes, 3 levels with alternatives, 9 attributes"},
        "outside": "names of properties having `/` or `~` (paths are documented as not being escaped)",
        "oracle": "a map holding the last value given by field; the paths put together while generating the schema",
        "must_reach": ["first", "changed", "strange", "installed", "refused", "nested", "single", "built"],
        "budget": {"quick": 120, "thorough": 600},
    },
}
