"""JSON pointers of pandalone.pandata."""
from collections import deque

import pandas as pd
from jsonschema.exceptions import RefResolutionError
from pandalone import pandata as P

CH = tuple(range(32, 127)) + (9, 10, 0xE9, 0x130, 0x201C, 0x1F600)


# ---------------------------------------------------------------- D01
def ref_escape(s):
    out = ""
    for c in s:
        if c == "~":
            out = out + "~0"
        elif c == "/":
            out = out + "~1"
        else:
            out = out + c
    return out


def roundtrip(ctx, lens):
    parts = [ctx.str("p%d" % i, n, CH) for i, n in enumerate(lens)]
    for p in parts:
        e = P.escape_jsonpointer_part(p)
        ctx.assert_(e == ref_escape(p), "escaping follows RFC 6901")
        ctx.assert_("/" not in e, "an escaped part has no separator")
        ctx.assert_(P.unescape_jsonpointer_part(e) == p, "unescape inverts escape")
    ptr = "".join(["/" + P.escape_jsonpointer_part(p) for p in parts])
    got = list(P.iter_jsonpointer_parts(ptr))
    ctx.observe(ptr, got)
    ctx.assert_(len(got) == len(parts), "as many parts as were joined")
    for a, b in zip(got, parts):
        ctx.assert_(a == b, "parts come back unchanged")
    rel = "/".join([P.escape_jsonpointer_part(p) for p in parts])
    got = list(P.iter_jsonpointer_parts_relaxed(rel))
    ctx.assert_(len(got) == max(1, len(parts)), "relaxed: as many parts")
    for a, b in zip(got, parts):
        ctx.assert_(a == b, "relaxed: parts come back unchanged")


def arbitrary(ctx, n):
    s = ctx.str("s", n, CH)
    st, v = ctx.outcome(lambda: list(P.iter_jsonpointer_parts(s)))
    ok = n == 0 or s[0] == "/"
    if ok:
        ctx.assert_(st == "ok", "pointers starting with '/' (or empty) are accepted")
        ctx.assert_(len(v) == s.count("/"), "one part per separator")
        ctx.reach("accepted")
        ctx.observe(v)
    else:
        ctx.assert_(st == "err" and isinstance(v, RefResolutionError),
                    "other texts are rejected with RefResolutionError")
        ctx.reach("rejected")


def cases_d01(tier):
    m = 3 if tier == "quick" else 4
    out = []
    for a in range(m + 1):
        out.append(("roundtrip", {"lens": [a]}))
        for b in range(m + 1):
            if a + b <= m + 1:
                out.append(("roundtrip", {"lens": [a, b]}))
    out.append(("roundtrip", {"lens": [1, 1, 1]}))
    out.append(("roundtrip", {"lens": []}))
    for n in range(m + 2):
        out.append(("arbitrary", {"n": n}))
    return out



# ---------------------------------------------------------------- D02
KEYCH = "ab01-~/"
DOCS = [
    {},
    {"a": 1},
    {"a": {"b": 1, "": 2}, "b": 3},
    {"a": ["x", {"a": 5}], "0": {"1": 6}},
    {"a": "ab", "b": None, "~": {"/": 8}},
    {"a": [], "b": [[1, 2], 3]},
    {"a": {"a": {"a": 7, "b": [4]}}},
    [],
    [1, {"a": 2}],
    [[1], "ab", {"0": 3}],
]
ERR = ("error",)


def clone(d):
    if isinstance(d, dict):
        return {k: clone(v) for k, v in d.items()}
    if isinstance(d, list):
        return [clone(v) for v in d]
    return d


def ref_index(part):
    """The list index a pointer part denotes, or None."""
    sign, digits = 1, part
    if part[:1] == "-":
        sign, digits = -1, part[1:]
    if digits == "":
        return None
    n = 0
    for c in digits:
        if c == "0":
            n = n * 10
        elif c == "1":
            n = n * 10 + 1
        else:
            return None
    return sign * n


def ref_set(doc, parts, value):
    """A copy of doc with value at parts; branches missing or not containers are replaced."""
    if not parts:
        return value
    p, rest = parts[0], parts[1:]
    if isinstance(doc, list):
        n = len(doc)
        i = n if p == "-" else ref_index(p)
        if i is None or i > n or i < -n:
            return ERR
        if i < 0:
            i = i + n
        sub = ref_set(doc[i] if i < n else None, rest, value)
        if sub is ERR:
            return ERR
        return doc[:i] + [sub] + doc[i + 1:]
    if isinstance(doc, dict):
        hit = None
        for k in doc:
            if k == p:
                hit = k
        sub = ref_set(None if hit is None else doc[hit], rest, value)
        if sub is ERR:
            return ERR
        new = dict(doc)
        if hit is None:
            new[p] = sub
        else:
            new[hit] = sub
        return new
    return {p: ref_set(None, rest, value)}


def ref_get(doc, parts):
    for p in parts:
        if isinstance(doc, list):
            i = ref_index(p)
            if i is None or i >= len(doc) or i < -len(doc):
                return ERR
            doc = doc[i]
        elif isinstance(doc, dict):
            hit = None
            for k in doc:
                if k == p:
                    hit = k
            if hit is None:
                return ERR
            doc = doc[hit]
        else:
            return ERR
    return doc


def setget(ctx, d, lens):
    doc = clone(DOCS[d])
    before = clone(DOCS[d])
    parts = [ctx.str("p%d" % i, n, KEYCH) for i, n in enumerate(lens)]
    ptr = "".join(["/" + P.escape_jsonpointer_part(p) for p in parts])
    value = ["new"]
    exp = ref_set(before, parts, value)
    st, v = ctx.outcome(P.set_jsonpointer, doc, ptr, value)
    if exp is ERR:
        ctx.reach("rejected")
        ctx.assert_(st == "err" and isinstance(v, RefResolutionError),
                    "a pointer that cannot be set is rejected with RefResolutionError")
        ctx.assert_(doc == before, "a rejected pointer leaves the document unchanged")
        return
    ctx.reach("set")
    ctx.observe(doc)
    ctx.assert_(st == "ok", "a settable pointer is set")
    ctx.assert_(doc == exp, "exactly the pointed node changed")
    if not any([p == "-" for p in parts]):
        st, v = ctx.outcome(P.resolve_jsonpointer, doc, ptr)
        ctx.assert_(st == "ok" and v is value, "the value set is the value resolved")


class Maker(P.Pandel):
    """Someone's model."""

    def _get_json_schema(self, is_prevalidation):
        return {}


FALSE = (None, 0, "", False)     # these too are defaults


def getonly(ctx, d, lens):
    doc = clone(DOCS[d])
    mm = Maker()
    mm.model = doc
    parts = [ctx.str("p%d" % i, n, KEYCH) for i, n in enumerate(lens)]
    ptr = "".join(["/" + P.escape_jsonpointer_part(p) for p in parts])
    # indexing into a text leaf is Python behaviour, not pointer semantics
    exp = ref_get(doc, parts)
    cur = doc
    for p in parts:
        ctx.assume(not isinstance(cur, str))
        cur = ref_get(cur, [p])
        if cur is ERR:
            break
    st, v = ctx.outcome(P.resolve_jsonpointer, doc, ptr)
    sentinel = Node    # callables too are defaults
    st2, v2 = ctx.outcome(P.resolve_jsonpointer, doc, ptr, sentinel)
    st3, v3 = ctx.outcome(P.resolve_jsonpointer, doc, ptr, None)
    st4, v4 = ctx.outcome(mm.get, ptr)
    others = [mm.get(ptr, default=x) for x in FALSE]
    ctx.assert_(doc == DOCS[d], "resolving does not change the document")
    ctx.assert_(st2 == "ok" and st3 == "ok", "with a default, resolving never fails")
    if exp is ERR:
        ctx.reach("unresolvable")
        ctx.assert_(st == "err" and isinstance(v, RefResolutionError),
                    "unresolvable pointers raise RefResolutionError")
        ctx.assert_(v2 is sentinel, "the default stands for unresolvable pointers")
        ctx.assert_(v3 is None, "a None default is a default")
        ctx.assert_(st4 == "err" and isinstance(v4, RefResolutionError), "so does the model")
        ctx.assert_(all([got is x for got, x in zip(others, FALSE)]), "and false ones stand too, also by the model")
    else:
        ctx.reach("resolved")
        ctx.observe(v)
        ctx.assert_(st == "ok" and v is exp, "resolves to the pointed node itself")
        ctx.assert_(v2 is exp and v3 is exp, "the default does not displace an existing node")
        ctx.assert_(st4 == "ok" and v4 is exp and all([x is exp for x in others]), "same by the model")


def empty_pointer(ctx, d):
    doc = clone(DOCS[d])
    st, v = ctx.outcome(P.set_jsonpointer, doc, "", 1)
    ctx.assert_(st == "err" and isinstance(v, RefResolutionError), "empty pointer cannot be set")
    ctx.assert_(doc == DOCS[d], "and nothing changed")
    st, v = ctx.outcome(P.resolve_jsonpointer, doc, "")
    ctx.assert_(st == "ok" and v is doc, "the empty pointer is the whole document")


def within(ctx, kind, n, deep):
    """Setting within other sequences: tuples passed by, series, queues."""
    items = [ctx.int("i%d" % i, 0, 9) for i in range(n)]
    part = ctx.str("p", 1, "012-a")
    value = ctx.int("value", 10, 19)
    ptr = "/s/" + part + ("/k" if deep else "")
    if kind == "tuple":
        inner = [{"k": x} for x in items]
        doc = {"s": tuple(inner), "z": 1}
        st, v = ctx.outcome(P.set_jsonpointer, doc, ptr, value)
        i = ref_index(part) if part != "2" else 2
        ctx.assert_(isinstance(doc["s"], tuple) and len(doc["s"]) == n and all([x is y for x, y in zip(doc["s"], inner)]), "tuples remain")
        if i is not None and i < n and deep:
            ctx.assert_(st == "ok", "set within the item of a tuple")
            items[i] = value
        else:
            ctx.assert_(st == "err", "tuples cannot change")
        ctx.assert_(ctx.eq([x["k"] for x in inner], items) and doc["z"] == 1, "exactly that node")
        ctx.reach("within")
        return
    seq = pd.Series(items, dtype=object) if kind == "series" else deque(items)
    doc = {"s": seq, "z": 1}
    st, v = ctx.outcome(P.set_jsonpointer, doc, ptr, value)
    i = n if part == "-" else ref_index(part) if part != "2" else 2
    got = list(doc["s"]) if kind == "queue" else list(doc["s"].values)
    if i is None or i > n:
        ctx.assert_(st == "err" and isinstance(v, RefResolutionError), "not an index of it")
        ctx.assert_(doc["s"] is seq and ctx.eq(got, items), "nothing changed")
        return
    ctx.assert_(st == "ok", "set")
    want = items[:i] + [{"k": value} if deep else value] + items[i + 1:]
    ctx.assert_(doc["s"] is seq and len(got) == len(want), "exactly that item of the sequence")
    for x, y in zip(got, want):
        ctx.assert_(type(x) is type(y) and ctx.eq(x, y), "exactly that item")
    ctx.assert_(doc["z"] == 1 and len(doc) == 2, "and nothing else")
    ctx.reach("within")


class Branch(dict):
    pass


def factory(ctx, d, lens):
    """The missing branches are of the kind asked for."""
    doc = clone(DOCS[d])
    before = clone(DOCS[d])
    parts = [ctx.str("p%d" % i, n, "ab01-") for i, n in enumerate(lens)]
    exp = ref_set(before, parts, "new")
    made = []

    def make():
        made.append(Branch())
        return made[-1]

    st, v = ctx.outcome(P.set_jsonpointer, doc, "".join(["/" + p for p in parts]), "new", object_factory=make)
    if exp is ERR:
        return
    ctx.assert_(st == "ok" and doc == exp, "exactly the pointed node changed")

    def branches(x, old):
        here = [x] if isinstance(x, dict) and not isinstance(old, dict) else []
        for k, v in x.items() if isinstance(x, dict) else enumerate(x) if isinstance(x, list) else ():
            o = old.get(k) if isinstance(x, dict) and isinstance(old, dict) else \
                old[k] if isinstance(x, list) and isinstance(old, list) and k < len(old) else None
            here += branches(v, o)
        return here

    new = branches(doc, DOCS[d])
    ctx.assert_(all([any([b is m for m in made]) for b in new]), "by the factory given")
    if new:
        ctx.reach("branched")


def cases_d02(tier):
    out = []
    for kind in ("tuple", "series", "queue"):
        for n in (1, 2):
            for deep in (False, True):
                out.append(("within", {"kind": kind, "n": n, "deep": deep}))
    for d in range(len(DOCS)):
        for l in [[1], [1, 1], [1, 1, 1]]:
            out.append(("factory", {"d": d, "lens": l}))
    for d in range(len(DOCS)):
        out.append(("empty_pointer", {"d": d}))
        lens = [[0], [1], [2], [1, 1], [1, 0], [0, 1], [2, 1], [1, 2], [1, 1, 1]]
        if tier == "thorough":
            lens += [[2, 2], [3], [2, 1, 1], [1, 2, 1], [1, 1, 2], [1, 1, 1, 1]]
        for l in lens:
            out.append(("setget", {"d": d, "lens": l}))
    return out


def tabular(ctx, how, rows, ask):
    """Frames, series, arrays and tuples in documents."""
    cells = [[ctx.int("%s%d" % (c, r), 0, 9) for r in range(rows)] for c in "ab"]
    df = pd.DataFrame({c: pd.Series(x, dtype=object) for c, x in zip("ab", cells)})
    sr = pd.Series([x[0] for x in cells], index=["a", "b"], dtype=object)
    doc = {"df": df, "sr": sr, "t": tuple(cells[0]), "q": deque(cells[1]), "o": Node(df=df)}
    if how == "pointer":
        get, pre = P.resolve_jsonpointer, "/"
    else:
        get, pre = P.resolve_path, ctx.choice("absolute", ["", "/"])
    missing = object()
    p = ctx.str("p", 1, "ab012c")
    r = ref_index(p) if p != "2" else 2
    col = 0 if p == "a" else 1 if p == "b" else None
    path = ctx.choice("in", ["df", "o/df"]) if how != "pointer" else "df"
    if ask == "column":
        got = get(doc, pre + path + "/" + p, missing)
        if col is None:
            ctx.assert_(got is missing, "no such column")
        else:
            ctx.assert_(isinstance(got, pd.Series) and ctx.eq(list(got.values), cells[col]), "the column")
            ctx.reach("column")
    elif ask == "cell":
        c = ctx.choice("c", [0, 1])
        got = get(doc, pre + path + "/" + "ab"[c] + "/" + p, missing)
        if r is None or r >= rows:
            ctx.assert_(got is missing, "no such row")
        else:
            ctx.assert_(ctx.eq(got, cells[c][r]), "the cell")
            ctx.reach("cell")
    elif ask == "key":
        got = get(doc, pre + "sr/" + p, missing)
        i = col if col is not None else r
        if i is None or i >= 2:
            ctx.assert_(got is missing, "no such key")
        else:
            ctx.assert_(ctx.eq(got, cells[i][0]), "the item of the series, by key or by position")
            ctx.reach("key")
    else:
        got = get(doc, pre + ask + "/" + p, missing)
        if r is None or r >= rows:
            ctx.assert_(got is missing, "no such item")
        else:
            ctx.assert_(ctx.eq(got, cells[0 if ask == "t" else 1][r]), "the item")
            ctx.reach("item")


def cases_d03(tier):
    out = []
    for how in ("pointer", "path"):
        for rows in (1, 2):
            for ask in ("column", "cell", "key", "t", "q"):
                out.append(("tabular", {"how": how, "rows": rows, "ask": ask}))
    for d in range(len(DOCS)):
        for l in [[0], [1], [2], [1, 1], [1, 0], [2, 1], [1, 2], [2, 2], [1, 1, 1], [1, 1, 1, 1]]:
            out.append(("getonly", {"d": d, "lens": l}))
    out += cases_path(tier)
    return out


# ---------------------------------------------------------------- D03: resolve_path
class Node:
    def __init__(self, **kw):
        self.__dict__.update(kw)


class Attrs(dict):
    """Both items and attributes, some of the same name."""

    def __init__(self, items, **kw):
        dict.__init__(self, items)
        self.__dict__.update(kw)


class AttrList(list):
    def __init__(self, items, **kw):
        list.__init__(self, items)
        self.__dict__.update(kw)


def attr_of(o, p):
    hit = ERR
    for k, v in vars(o).items():
        if k == p:
            hit = v
    return hit


def path_docs():
    leaf = ["L0", "L1"]
    inner = {"a": leaf, "b": {"a": 11, "0": 12}}
    return [
        ({"a": inner, "b": 2, "0": [3, [4]]}, {"a": {"a": 21}, "b": 22}),
        ({"a": Node(b=Node(a=31), a=[32]), "b": {}}, {}),
        ([1, {"a": 5}, [6]], {"b": 7}),
        ({"b": 1}, None),
        (Attrs({"a": 41, "b": AttrList([42, Attrs({}, b=43)], a=44, b={"a": 45})}, a=51, b=52, **{"0": 53, "1": {"b": 54}}), {"b": 55}),
    ]


def ref_path(doc, parts, root):
    cur = doc
    for i, p in enumerate(parts):
        if p == "":
            # an empty first part makes the path absolute; elsewhere it restarts at the root, or
            # stays where it is when no root was given
            cur = cur if root is None else root
            continue
        if isinstance(cur, (list, dict)):
            item = ref_get(cur, [p])
            if item is ERR and isinstance(cur, (Attrs, AttrList)):
                item = attr_of(cur, p)
            if item is ERR:
                return ERR
            cur = item
        elif isinstance(cur, Node):
            cur = attr_of(cur, p)
            if cur is ERR:
                return ERR
        else:
            return ERR
    return cur


def getpath(ctx, d, lens, absolute):
    doc, root = path_docs()[d]
    parts = [ctx.str("p%d" % i, n, KEYCH) for i, n in enumerate(lens)]
    allparts = ([""] if absolute else []) + parts
    path = "/".join([P.escape_jsonpointer_part(p) for p in allparts])
    exp = ref_path(doc, allparts, root)
    cur = doc
    for p in allparts:
        ctx.assume(not isinstance(cur, str))
        cur = ref_path(cur, [p], root)
        if cur is ERR:
            break
    kw = {} if root is None else {"root": root}
    st, v = ctx.outcome(P.resolve_path, doc, path, **kw)
    sentinel = Node    # callables too are defaults
    st2, v2 = ctx.outcome(P.resolve_path, doc, path, sentinel, **kw)
    others = [P.resolve_path(doc, path, x, **kw) for x in FALSE]
    ctx.assert_(st2 == "ok", "with a default, resolving never fails")
    if exp is ERR:
        ctx.reach("path unresolvable")
        ctx.assert_(all([got is x for got, x in zip(others, FALSE)]), "false defaults stand too")
        ctx.assert_(st == "err" and isinstance(v, RefResolutionError),
                    "unresolvable paths raise RefResolutionError")
        ctx.assert_(v2 is sentinel, "the default stands for unresolvable paths")
    else:
        ctx.reach("path resolved")
        ctx.assert_(st == "ok" and v is exp, "resolves to the node itself")
        ctx.assert_(v2 is exp, "the default does not displace an existing node")


def cases_path(tier):
    out = []
    for d in range(5):
        for l in [[1], [2], [1, 1], [1, 1, 1], [1, 0, 1]] + ([[2, 2], [1, 1, 1, 1]] if tier == "thorough" else []):
            for ab in (False, True):
                out.append(("getpath", {"d": d, "lens": l, "absolute": ab}))
    return out


PROPERTIES = {
    "D01": {
        "cases": cases_d01,
        "bounds": {"quick": "1-3 parts, part lengths <=3 (sum <=4); arbitrary pointers of length <=4; "
                            "every character any printable ASCII, tab, newline or one of 4 non-ASCII code points",
                   "thorough": "part lengths <=4 (sum <=5); arbitrary pointers of length <=5"},
        "oracle": "RFC 6901 escaping written as a per-character map; the inverse law",
        "must_reach": ["accepted", "rejected"],
        "budget": {"quick": 60, "thorough": 400},
    },
    "D02": {
        "cases": cases_d02,
        "bounds": {"quick": "10 document shapes (dicts/lists nested <=3, text/None/number leaves); pointers of "
                            "1-3 parts, part lengths <=2 (sum <=3), every character one of 'ab01-~/'; tuples, "
                            "queues and series of 1-2 any items; other factories of branches",
                   "thorough": "pointers of 1-4 parts, part lengths <=3 (sum <=4)"},
        "oracle": "a functional reference setter that copies the document",
        "must_reach": ["set", "rejected", "within", "branched"],
        "budget": {"quick": 90, "thorough": 600},
    },
    "D03": {
        "cases": cases_d03,
        "bounds": "10 document shapes for pointers, 5 (documents with attribute-objects, also with items of the same name, separate roots) for "
                  "relative/absolute paths; 1-4 parts of length <=2 over 'ab01-~/'; frames, series, tuples "
                  "and queues of 1-2 rows and any items",
        "outside": ["indexing into text leaves"],
        "oracle": "a reference resolver walking dicts, lists and attribute objects",
        "must_reach": ["resolved", "unresolvable", "path resolved", "path unresolvable", "column", "cell", "key", "item"],
        "budget": {"quick": 90, "thorough": 600},
    },
}
