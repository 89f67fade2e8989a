"""Path-trees out of tables."""
import numpy as np
import pandas as pd

from pandalone.mappings import pstep_from_df


def objects(values):
    out = np.empty(len(values), dtype=object)
    for i, v in enumerate(values):
        out[i] = v
    return out


def from_table(ctx, paths, name_col, attrs, n):
    """Each row names the step of its path, and gives it the attributes of the rest columns."""
    names = [ctx.str("name%d" % i, n, "xyA ") for i in range(len(paths))]
    vals = [[ctx.int("%s%d" % (a, i), 0, 9) for i in range(len(paths))] for a in attrs]
    cols = {}
    if ctx.bool("names last"):
        for a, v in zip(attrs, vals):
            cols[a] = objects(v)
        cols[name_col] = objects(names)
    else:
        cols[name_col] = objects(names)
        for a, v in zip(attrs, vals):
            cols[a] = objects(v)
    df = pd.DataFrame(cols, index=list(paths), columns=list(cols))
    st, p = ctx.outcome(pstep_from_df, df, name_col) if name_col != "names" else ctx.outcome(pstep_from_df, df)
    ctx.assert_(st == "ok", "made")
    ctx.assert_(list(df.columns) == list(cols) and [x for x in df[name_col].values] == names, "the table is left as it was")
    spelled = {}
    for path, name in zip(paths, names):
        spelled[path] = name
    known = list(p._steps(keys=True))
    ctx.assert_(known == list(dict.fromkeys([x.split("/")[1] for x in paths])), "there are steps for all paths, and no others")
    for i, path in enumerate(paths):
        step, full, at = p, "", ""
        for part in path[1:].split("/"):
            ctx.assert_(part in list(step._steps(keys=True)), "a step of its parent")
            step = getattr(step, part)
            at += "/" + part
            full += "/" + (spelled[at] if at in spelled else part)
        ctx.assert_(step == names[i], "named")
        for a, v in zip(attrs, vals):
            ctx.assert_(hasattr(step, "_" + a) and getattr(step, "_" + a) == v[i], "with its attributes")
        ctx.assert_(not hasattr(step, "_" + name_col), "the names are no attribute")
        kids = [x for x in paths if x.startswith(path + "/")]
        if not kids:
            ctx.assert_(full in p._paths(), "its path is spelled with the names of all its steps")
        parent = path.rsplit("/", 1)[0]
        if parent and parent not in paths:
            for a in attrs:
                ctx.assert_(not hasattr(getattr(p, parent[1:]), "_" + a), "no attributes but of those in the table")
            ctx.reach("unlisted parent")
        elif parent:
            ctx.reach("nested")
    ctx.reach("made")


def cases_m07(tier):
    q = tier == "quick"
    out = []
    for paths in (["/a"], ["/a", "/b"], ["/a", "/a/b"], ["/a/b", "/a"], ["/a/b"], ["/a/b", "/a/c"], ["/b", "/a/b", "/a"], ["/a/a/a", "/a"]):
        for attrs in ([], ["renames"], ["units", "renames"]):
            for name_col in ("names", "col"):
                for n in (1, 2) if q else (1, 2, 3):
                    if n < 2 or len(paths) < 3:
                        out.append(("from_table", dict(paths=paths, name_col=name_col, attrs=attrs, n=n)))
    return out


PROPERTIES = {
    "M07": {
        "cases": cases_m07,
        "bounds": {"quick": "8 sets of up to 3 paths of up to 3 steps, any names of <=2 characters over `x y A blank`, up to 2 more columns "
                            "with any digit", "thorough": "names of 3 characters"},
        "outside": ["escapes in paths", "names with slashes or dots (M04)", "repeated paths", "nulls"],
        "oracle": "the rows of the table",
        "must_reach": ["made", "nested", "unlisted parent"],
        "budget": {"quick": 90, "thorough": 300},
    },
}
