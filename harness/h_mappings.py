"""Rules renaming paths, and path-trees."""
from pandalone.mappings import Pmod, Pstep, _append_step, _join_paths, pmods_from_tuples
from pandalone.pandata import iter_jsonpointer_parts_relaxed

# ---------------------------------------------------------------- a file-system-like walker
def walk(steps, at=(False, 0, ())):
    """(rooted, levels above the start, names) after walking the steps."""
    rooted, ups, names = at
    for s in steps:
        if s == "":
            rooted, ups, names = True, 0, ()
        elif s == ".":
            pass
        elif s == "..":
            if names:
                names = names[:-1]
            elif not rooted:
                ups = ups + 1
        else:
            names = names + (s,)
    return rooted, ups, names


def spell(at):
    rooted, ups, names = at
    parts = ([""] if rooted else []) + [".."] * ups + list(names)
    return "/".join(parts) if parts else "."


def split(text):
    out = [""]
    for c in text:
        if c == "/":
            out.append("")
        else:
            out[-1] = out[-1] + c
    return out


# ---------------------------------------------------------------- M01
def join(ctx, lens, alph):
    steps = [ctx.str("s%d" % i, n, alph) for i, n in enumerate(lens)]
    got = _join_paths(*steps)
    ctx.observe(got)
    at = walk(steps)
    ctx.assert_(got == spell(at), "joining walks the steps")
    ctx.reach("rooted" if at[0] else "above" if at[1] else "below")
    fold = ()
    for s in steps:
        fold = _append_step(fold, s)
    ctx.assert_(tuple(fold) == (("",) if at[0] else ()) + ("..",) * at[1] + at[2], "appending one by one")
    for s in steps:
        for c in s:
            if c == "/":
                return
    for k in range(1, len(steps)):
        left = list(iter_jsonpointer_parts_relaxed(_join_paths(*steps[:k])))
        right = list(iter_jsonpointer_parts_relaxed(_join_paths(*steps[k:])))
        ctx.assert_(_join_paths(*(left + steps[k:])) == got, "joining what was joined to the left")
        ctx.assert_(_join_paths(*(steps[:k] + right)) == got, "joining what was joined to the right")


def cases_m01(tier):
    out = []
    m = 3 if tier == "quick" else 4
    for n in range(m + 1):
        lens = [()]
        for _ in range(n):
            lens = [ls + (k,) for ls in lens for k in (0, 1, 2, 3)]
        for ls in lens:
            if sum(ls) <= (5 if tier == "quick" else 7):
                out.append(("join", dict(lens=list(ls), alph=".a" if len(ls) > 2 else "./a~")))
    for k in range(4, 6 if tier == "quick" else 8):
        out.append(("join", dict(lens=[2] * k, alph=".")))
        out.append(("join", dict(lens=[0] + [2] * k, alph=".")))
        out.append(("join", dict(lens=[1, 2] * (k // 2) + [1], alph=".a")))
    return out


# ---------------------------------------------------------------- reference rules
# A rule is ([step, ...], target); a step is a text, or a pattern of the table below, which is given here as
# (regex, matcher) with the matcher returning the groups or None; a target is a text, or for patterns a
# (template, function of the groups).
PATTERNS = {
    "a.*": lambda s: (s,) if s[:1] == "a" else None,
    "a(.*)": lambda s: (s, s[1:]) if s[:1] == "a" else None,
    "(.)b?": lambda s: (s, s[0]) if len(s) == 1 or len(s) == 2 and s[1] == "b" else None,
    "(1*)b": lambda s: (s, s[:-1]) if s[-1:] == "b" and all([c == "1" for c in s[:-1]]) else None,
    "a|b": lambda s: (s,) if s == "a" or s == "b" else None,
    ".*": lambda s: (s,),
    "": lambda s: (s,) if s == "" else None,
    "A.*": lambda s: (s,) if s[:1] == "A" else None,
    "(a)?(b)?": lambda s: None if len(s) > 2 else (
        (s, "", "") if len(s) == 0 else (s, s[0], "") if len(s) == 1 and s[0] == "a" else
        (s, "", s[0]) if len(s) == 1 and s[0] == "b" else
        (s, s[0], s[1]) if len(s) == 2 and s[0] == "a" and s[1] == "b" else None),
}
TEMPLATES = {
    r"B\1": lambda g: "B" + g[1],
    r"\g<0>X": lambda g: g[0] + "X",
    r"/n/\g<0>": lambda g: "/n/" + g[0],
    r"../\1": lambda g: "../" + g[1],
    r"x/\1": lambda g: "x/" + g[1],
    r"\2\1": lambda g: g[2] + g[1],
    r"./\g<1>y": lambda g: "./" + g[1] + "y",
    "C": lambda g: "C",
    "": lambda g: "",
    "D/": lambda g: "D/",
}


def steps_of(frm):
    return frm.split("/")


class Rule(object):
    """A node of the hierarchy of rules, as the documentation describes it."""

    def __init__(self):
        self.target = None
        self.exact = []   # [(name, Rule)]
        self.pats = []    # [(regex, Rule)], later ones win


def rules_of(tuples):
    root = Rule()
    for frm, to in tuples:
        if frm is None or to is None or frm == "" and to == "":
            continue
        node = root
        for s in steps_of(frm):
            if s[:1] == "~":
                old = [r for k, r in node.pats if k == s[1:]]
                node.pats = [kr for kr in node.pats if kr[0] != s[1:]] + [(s[1:], old[0] if old else Rule())]
                node = node.pats[-1][1]
            else:
                old = [r for k, r in node.exact if k == s]
                if not old:
                    node.exact = node.exact + [(s, Rule())]
                node = old[0] if old else node.exact[-1][1]
        node.target = to
    return root


def matching(active, step):
    """(the rules of the step in ascending priority, its target or None) under the active rules."""
    order = []
    for r in active:
        for k, _ in r.pats:
            order = [o for o in order if o != k] + [k]
    found = []
    target = None
    for k in order:
        g = PATTERNS[k](step)
        if g is None:
            continue
        t = None
        for r in active:
            for k2, c in r.pats:
                if k2 == k:
                    found.append(c)
                    if c.target is not None:
                        t = c.target
        if t is not None:
            target = TEMPLATES[t](g) if type(t) is str and t in TEMPLATES else t
    for r in active:
        for name, c in r.exact:
            if name == step:
                found.append(c)
                if c.target is not None:
                    target = c.target
    return found, target


def ref_map(rules, path):
    if len(path) > 1 and path[-1:] == "/":
        path = path[:-1]
    active = [rules]
    at = (False, 0, ())
    for step in split(path):
        active, target = matching(active, step)
        at = rename(at, step, target)
    return spell(at)


def rename(at, step, target):
    """Where one is after a step having this target (or None)."""
    if target is None:
        return walk([step], at)
    if target[:1] == ".":
        at = walk([step], at)
    return walk(split(trim(target)), at)


def trim(target):
    return target[:-1] if len(target) > 1 and target[-1:] == "/" else target


def dump(p):
    """The contents of a rule set, in order."""
    return [p._alias, [[k, dump(v)] for k, v in p._steps.items()],
            [[k.pattern, dump(v)] for k, v in p._regxs.items()]]


def norm(d):
    """exact steps have no order"""
    return [d[0], sorted([[k, norm(v)] for k, v in d[1]], key=lambda kv: kv[0]), [[k, norm(v)] for k, v in d[2]]]


# ---------------------------------------------------------------- M02
def mapping(ctx, rules, lens, n, alph, talph="a./"):
    tuples = []
    for i, r in enumerate(rules):
        if isinstance(r, str):
            tuples.append((r, ctx.str("to%d" % i, lens[i], talph)))
        else:
            tuples.append(r)
    path = ctx.str("path", n, alph)
    pm = pmods_from_tuples(tuples)
    before = dump(pm)
    got = pm.map_path(path)
    ctx.observe(got)
    exp = ref_map(rules_of(tuples), path)
    ctx.assert_(got == exp, "the path as its rules tell")
    ctx.reach("mapped")
    again = pm.map_paths([path, path])
    ctx.assert_(again[0] == exp and again[1] == exp, "again the same")
    ctx.assert_(ctx.eq(dump(pm), before), "mapping leaves the rules as they were")


EXACT = [["/a"], ["/a", "/a/b"], ["", "/a/b"], ["/a/b", "/b"], ["/", "/a"], ["a", "a/b"], ["", "/", "//a"],
         ["/a", "/a/a"], ["/a", "/a"], ["/b", "a/b"], ["a/b", "/a/b"], ["b/a", "a/a"], ["a//b", "/b"]]
PATS = [
    [("/~a.*", "C"), ("/~a(.*)", r"B\1")],
    [("/~a(.*)", r"B\1"), ("/~a.*", "C"), ("/a", "./z")],
    [("/~(.)b?", r"x/\1"), ("/~(.)b?/~(1*)b", r"../\1")],
    [("/~.*/~a|b", r"\g<0>X"), ("/a/~(.)b?", r"B\1"), ("/~a.*/b", "/q")],
    [("/~(a)?(b)?", r"\2\1"), ("/~(a)?(b)?/~(a)?(b)?", r"\2\1")],
    [("/~.*", "C"), ("/~a.*/a", "D/"), ("/a", None), ("/~a|b/~.*", r"/n/\g<0>")],
    [("/~a.*", "C"), ("/~(.)b?", r"B\1"), ("/~a.*", r"\g<0>X")],
    [("/~a.*/~a.*", "C"), ("/~a.*", ""), ("/~a(.*)/~a(.*)", r"./\g<1>y"), ("", "r")],
    [("~.*", r"/n/\g<0>"), ("~.*/~(1*)b", r"B\1"), ("a/b", "")],
    [("/~a.*/~(.)b?", r"B\1"), ("/~a(.*)/~a|b", "C"), ("/~a(.*)/~(.)b?/~.*", "D/"), ("/~a.*/~.*/b", "q")],
    [("/~", "D/"), ("/~/~a.*", "/q"), ("/~/~A.*", "C"), ("/~A.*", "z"), ("/~a.*", r"\g<0>X"), ("/a/~", "./z")],
    [("/~.*/~.*", r"\g<0>X"), ("/a", "A"), ("/b/~(.)b?", ""), ("/~.*/~.*", "C")],
]


def cases_m02(tier):
    out = []
    q = tier == "quick"
    for rules in EXACT:
        for a in (0, 1, 2, 3) if q else (0, 1, 2, 3, 4):
            for b in ((0, 1, 2) if q else (0, 1, 2, 3)) if len(rules) > 1 else (0,):
                lens = [a, b, 1][:len(rules)]
                for n in range(0, 6 if q else 7):
                    if q and (a + b + n > 7 or n == 5 and len(rules) > 2):
                        continue
                    out.append(("mapping", dict(rules=rules, lens=lens, n=n, alph="/ab")))
    for rules in (["/a"], ["/a", "/a/b"]):
        for n in range(1, 5 if q else 6):
            out.append(("mapping", dict(rules=rules, lens=[2, 1][:len(rules)], n=n, alph="/ab.", talph="a./")))
    for rules in PATS:
        for n in range(0, 6 if q else 8):
            out.append(("mapping", dict(rules=rules, lens=[], n=n, alph="/aA" if any(["~A" in f for f, _ in rules]) else "/ab1")))
    return out


# ---------------------------------------------------------------- M03
FROMS = ["", "/a", "/a/b", "/~a.*", "/~a.*/b", "/~.*", "/b", "a/b"]


def merging(ctx, na, nb, npath, froms, empty=()):
    ta = [(ctx.choice("a%d" % i, froms), ctx.str("ta%d" % i, 1, "xy")) for i in range(na)]
    tb = [(ctx.choice("b%d" % i, froms), ctx.str("tb%d" % i, 0 if i in empty else 1, "yz")) for i in range(nb)]
    for i in empty:
        ctx.assume(tb[i][0] != "")
    a, b = pmods_from_tuples(ta), pmods_from_tuples(tb)
    da, db = dump(a), dump(b)
    m = a._merge(b)
    dm = dump(m)
    ctx.observe(dm)
    ctx.assert_(ctx.eq(norm(dm), norm(dump(pmods_from_tuples(ta + tb)))), "as if defined one after the other")
    ctx.assert_(ctx.eq(dump(a), da), "the 1st operand is as it was")
    ctx.assert_(ctx.eq(dump(b), db), "the 2nd operand is as it was")
    if npath:
        path = ctx.str("path", npath, "/ab")
        ctx.assert_(m.map_path(path) == ref_map(rules_of(ta + tb), path), "maps as the rules of both")
        m2 = m._merge(a)
        ctx.assert_(ctx.eq(norm(dump(m2)), norm(dump(pmods_from_tuples(ta + tb + ta)))), "merged once more")
        ctx.assert_(ctx.eq(dump(a), da) and ctx.eq(dump(b), db), "operands are as they were")
        ctx.assert_(ctx.eq(dump(m), dm), "the previous result is as it was")
        ctx.reach("mapped")
    ctx.reach("merged")


def cases_m03(tier):
    q = tier == "quick"
    out = []
    for na in range(0, 3):
        for nb in range(0, 3):
            out.append(("merging", dict(na=na, nb=nb, npath=0, froms=FROMS)))
            if nb:
                out.append(("merging", dict(na=na, nb=nb, npath=2 if na + nb == 2 else 0, froms=FROMS, empty=(nb - 1,))))
    for froms in (["/a", "/~a.*", "/a/b"], ["/~a.*/b", "/~a.*", "/~.*"], ["", "/a", "/~.*/a"], ["/a/~.*", "/~a.*/a", "/a"]):
        for n in (2, 3, 4):
            for na, nb in ((1, 1), (2, 1), (1, 2)) + (() if q else ((2, 2),)):
                if q and n == 4 and na + nb > 2:
                    continue
                out.append(("merging", dict(na=na, nb=nb, npath=n, froms=froms)))
    if not q:
        for na, nb in ((3, 2), (2, 3), (3, 3)):
            out.append(("merging", dict(na=na, nb=nb, npath=0, froms=FROMS[1:6])))
    return out


# ---------------------------------------------------------------- M04: path-trees
class Node(object):
    def __init__(self, name, active, given=None):
        self.name = name
        self.active, target = matching(active, name)
        self.text = given if given is not None else name if target is None else target
        self.kids = []
        self.lock = 3
        self.tags = []
        self.olds = []

    def kid(self, name):
        for k in self.kids:
            if k.name == name:
                return k
        k = Node(name, self.active)
        self.kids.append(k)
        return k


def leaves(node, at=(False, 0, ()), tag=None):
    at = walk(split(trim(node.text)), at)
    out = []
    if tag is not None and tag in node.tags or tag is None and not node.kids:
        out.append(spell(at))
    for k in node.kids:
        out = out + leaves(k, at, tag)
    return out


def same_set(ctx, got, exp, msg):
    """got: sorted without duplicates"""
    for i in range(1, len(got)):
        ctx.assert_(got[i - 1] < got[i], msg + ": sorted, once each")
    ctx.assert_(ctx.all([ctx.any([g == e for e in exp]) for g in got]), msg + ": nothing else")
    ctx.assert_(ctx.all([ctx.any([g == e for g in got]) for e in exp]), msg + ": all of them")


def check_tree(ctx, p, node):
    ctx.assert_(p == node.text, "the step's text")
    ctx.assert_(p._orig == node.name, "the name by which it is accessed")
    ctx.assert_(len(p._steps()) == len(node.kids), "as many steps as were accessed")
    keys = list(p._steps(keys=True))
    for i, k in enumerate(node.kids):
        ctx.assert_(keys[i] == k.name, "the steps that were accessed")
        check_tree(ctx, getattr(p, k.name), k)
    if node.kids:
        ctx.assert_(len(p._steps()) == len(node.kids), "checking creates none")


def tree(ctx, rules, lens, root, chains, assign=None, talph="x/", names="ab"):
    tuples = []
    for i, r in enumerate(rules):
        tuples.append((r, ctx.str("to%d" % i, lens[i], talph)) if isinstance(r, str) else r)
    pm = pmods_from_tuples(tuples)
    rs = rules_of(tuples)
    before = dump(pm)
    p = pm.step(root) if rules else Pstep(root)
    node = Node(root, [rs])
    hist = [[ctx.choice("n%d%d" % (i, j), names) for j in range(n)] for i, n in enumerate(chains)]
    for names in hist:
        q, m = p, node
        for nm in names:
            q, m = getattr(q, nm), m.kid(nm)
        ctx.assert_(q == m.text, "the text of what is accessed")
    if assign is not None:
        depth, n = assign
        q, m = p, node
        for j in range(depth - 1):
            nm = ctx.choice("an%d" % j, names)
            q, m = getattr(q, nm), m.kid(nm)
        nm = ctx.choice("an", names)
        txt = ctx.str("atext", n, talph)
        setattr(q, nm, txt)
        m.kid(nm).text = txt
        ctx.reach("assigned")
        q, m = getattr(getattr(q, nm), "a"), m.kid(nm).kid("a")
        ctx.assert_(q == m.text, "steps below a renamed one are mapped as before")
    check_tree(ctx, p, node)
    got = p._paths()
    ctx.observe(got)
    same_set(ctx, got, leaves(node), "the paths")
    ctx.assert_(ctx.eq(dump(pm), before), "trees leave the rules as they were")
    if rules:
        fresh = pm.step(root)
        f, m = fresh, Node(root, [rs])
        for nm in hist[0]:
            f, m = getattr(f, nm), m.kid(nm)
        check_tree(ctx, f, m)
        ctx.reach("fresh tree")
    if not assign and rules:
        plain = Pstep(root)
        for names in hist:
            q = plain
            for nm in names:
                q = getattr(q, nm)
        for path in plain._paths():
            mapped = pm.map_path(path)
            ctx.assert_(ctx.any([mapped == g for g in got]), "paths are those that the rules map")
    ctx.reach("tree")


def unescaped(text):
    return text.replace("~1", "/").replace("~0", "~")


def made(ctx, n, given):
    """Steps made directly: from pairs or rules (escapes in the targets), with a text and tags of one's own."""
    to = ctx.str("to", n, "x~01/")
    sub = ctx.str("sub", 1, "x/")
    pairs = [("a", to), ("a/b", sub), ("/a", "n")]
    name = ctx.choice("name", "ab")
    kind = ctx.choice("kind", ("list", "tuple", "rules"))
    maps = {"list": pairs, "tuple": tuple(pairs), "rules": pmods_from_tuples(pairs)}[kind]
    before = dump(maps) if kind == "rules" else list(maps)
    text = ctx.str("text", given, "x/~") if given is not None else None
    tags = ctx.choice("tags", ((), ("t",), ("t", "u", "t")))
    p = Pstep(name, maps, text, *tags)
    exp = text if text is not None else unescaped(to) if name == "a" else name
    ctx.assert_(p == exp, "the text given, else the one mapped, else the name")
    ctx.assert_(p._orig == name and p._locked == Pstep.CAN_RELOCATE, "its name, not locked")
    ctx.assert_(set(p._tags) == set(tags), "its tags")
    ctx.assert_(p.b == (sub if name == "a" else "b"), "steps below are mapped")
    ctx.assert_(p.c == "c" and p.b._orig == "b" and not p.b._tags, "or not")
    p._tag("v")
    ctx.assert_(set(p._tags) == set(tags) | {"v"} and not p.c._tags, "one more tag")
    ctx.assert_(ctx.eq(dump(maps) if kind == "rules" else list(maps), before), "the rules are as they were")
    ctx.assert_(Pstep(name, maps) == (unescaped(to) if name == "a" else name), "again")
    ctx.reach("made")


def not_rules(ctx):
    bad = ctx.choice("bad", (5, "/a", {"/a": "b"}, {1}, 2.5, object()))
    st, v = ctx.outcome(Pstep, "a", bad)
    ctx.assert_(st == "err" and isinstance(v, ValueError), "neither rules nor a step")
    ctx.reach("not rules")


def copied(ctx, n, fresh):
    """A step made from (or assigned) another has its children, tags and lock, and the two are apart from then on."""
    pm = pmods_from_tuples([("a", "m"), ("a/x", ctx.str("to", n, "x/")), ("a/x/y", "yy")])
    src = Pstep("a", pm)
    kids = ctx.choice("kids", ((), ("x",), ("x", "z")))
    for k in kids:
        getattr(src, k)
    if ctx.bool("deep") and kids:
        src.x.y
    tagged = ctx.bool("tagged")
    if tagged:
        src._tag("t")
    host = Pstep("h")
    if ctx.bool("had"):
        host.a.q
    if fresh:
        c = Pstep("a", src)
        ctx.assert_(c == "a", "its own name")
    else:
        host.a = src
        c = host.a
        ctx.assert_(c == "a" and list(host._steps(keys=True)) == ["a"], "its own name")
    ctx.assert_(c is not src and src == "m", "another step")
    ctx.assert_(list(c._steps(keys=True)) == list(kids), "the children")
    ctx.assert_(set(c._tags) == ({"t"} if tagged else set()), "the tags")
    ctx.assert_(c._locked == Pstep.CAN_RELOCATE, "the lock")
    ctx.assert_(c.x == src.x and c.x.y == "yy" and c.w == "w", "mapped alike")
    have = list(src._steps(keys=True))
    c.more
    c._tag("v")
    ctx.assert_(list(src._steps(keys=True)) == have and "v" not in src._tags, "apart")
    src._tag("s")
    src.other
    ctx.assert_("s" not in c._tags and "other" not in list(c._steps(keys=True)), "both ways")
    ctx.reach("copied")


def cases_m04(tier):
    q = tier == "quick"
    out = [("made", dict(n=n, given=g)) for n in ((0, 2, 3) if q else (0, 1, 2, 3, 4)) for g in (None, 0, 1)]
    out += [("not_rules", {})] + [("copied", dict(n=n, fresh=f)) for n in (0, 1) for f in (False, True)]
    for rules in ([], ["/a"], ["/a", "/a/b"], ["", "/b"], ["/a/b"]):
        for a in (0, 1, 2, 3):
            for b in (0, 1, 2) if len(rules) > 1 else (0,):
                for chains in ([1], [2], [2, 1], [3], [2, 2]) + (() if q else ([3, 2], [2, 2, 1])):
                    if "" in rules and a == 0 or q and a + b + sum(chains) > 7:
                        continue
                    out.append(("tree", dict(rules=rules, lens=[a, b][:len(rules)], root="", chains=chains)))
            if not rules:
                break
    for names in (("name", "shape", "T"), ("dtype", "values", "a1"), ("A", "columns", "size")):
        out.append(("tree", dict(rules=["/" + names[0]], lens=[1], root="", chains=[2, 1], names=names)))
    for rules in (["r"], ["r/a"], []):
        for chains in ([1], [2, 1]):
            out.append(("tree", dict(rules=rules, lens=[2], root="r", chains=chains)))
    for i, rules in enumerate(PATS):
        if i in (2, 4, 8):
            continue
        if any([x[1] is not None and (x[1][:1] == "." or x[1] == "") for x in rules]):
            continue
        for chains in ([2], [3, 1]) if q else ([2], [3, 1], [3, 2]):
            out.append(("tree", dict(rules=rules, lens=[], root="", chains=chains, names=("a", "b", "a1"))))
    for rules in ([], ["/a"], ["/a", "/a/a"], ["/b/a"]):
        for depth in (1, 2):
            for n in (0, 1, 2):
                for chains in ([1], [2], [2, 1]):
                    if q and depth + n + sum(chains) > 5:
                        continue
                    out.append(("tree", dict(rules=rules, lens=[1, 1][:len(rules)], root="", chains=chains,
                                             assign=(depth, n))))
    return out


# ---------------------------------------------------------------- M05: locks and tags
def refused(node, lock, text):
    return text != node.name and (lock < 1 or lock < 3 and "/" in text)


OPS = ("lock", "fix", "set3", "set1", "set0", "assign", "bad", "tag", "untag", "touch")


def apply_op(ctx, i, op, p, node, n):
    """One operation on a child (a or b) of the root, or on a child of that."""
    nm = ctx.choice("n%d" % i, "ab")
    deep = ctx.choice("deep%d" % i, (False, True)) if op != "touch" else True
    holder, hnode = (getattr(p, nm), node.kid(nm)) if deep else (p, node)
    nm2 = "a" if deep else nm
    if op == "touch":
        nm2 = ctx.choice("m%d" % i, "ac")
    if op in ("assign", "bad"):
        kid = None
        for k in hnode.kids:
            if k.name == nm2:
                kid = k
        if op == "bad":
            st, v = ctx.outcome(setattr, holder, nm2, ctx.choice("v%d" % i, (5, None, ["x"], b"x", False)))
            ctx.assert_(st == "err" and isinstance(v, AssertionError), "only texts are assigned")
            ctx.reach("bad value")
            return
        txt = ctx.str("txt%d" % i, n, "xa/")
        was = getattr(holder, nm2) if kid is not None else None
        st, v = ctx.outcome(setattr, holder, nm2, txt)
        if kid is not None and refused(kid, kid.lock, txt):
            ctx.assert_(st == "err" and isinstance(v, ValueError), "mapping a locked step is refused")
            ctx.reach("assign refused")
        else:
            ctx.assert_(st == "ok", "an allowed assignment")
            if kid is not None:
                hnode.olds.append((was, kid.text, kid.lock, list(kid.tags), [k.name for k in kid.kids]))
                ctx.reach("replaced")
            hnode.kid(nm2).text = txt
            ctx.reach("assigned")
        return
    s, k = getattr(holder, nm2), hnode.kid(nm2)
    if op == "touch":
        return
    if op == "tag":
        new = ctx.choice("tags%d" % i, (["t"], ["u"], ["u", "t"], []))
        r = s._tag(*new)
        ctx.assert_(r is s, "chains")
        k.tags = list(k.tags) + new
        return
    if op == "untag":
        old = ctx.choice("tag%d" % i, "tu")
        r = s._tag_remove(old)
        ctx.assert_(r is s, "chains")
        k.tags = [t for t in k.tags if t != old]
        return
    lock = {"lock": 0, "fix": 1, "set3": 3, "set1": 1, "set0": 0}[op]
    if op in ("lock", "fix"):
        st, v = ctx.outcome(lambda: s._lock if op == "lock" else s._fix)
        if st == "ok":
            ctx.assert_(v is s, "chains")
    else:
        st, v = ctx.outcome(setattr, s, "_locked", lock)
    if refused(k, lock, k.text):
        ctx.assert_(st == "err" and isinstance(v, ValueError), "locking a step mapped further than allowed is refused")
        ctx.reach("lock refused")
    else:
        ctx.assert_(st == "ok", "an allowed lock")
        k.lock = lock
        ctx.reach("locked")


def check_state(ctx, p, node):
    ctx.assert_(p == node.text, "the step's text")
    ctx.assert_(p._locked == node.lock, "the step's lock")
    tags = set(p._tags)
    ctx.assert_(len(tags) == len(set(node.tags)) and all([t in tags for t in node.tags]), "the step's tags")
    steps = dict(zip(p._steps(keys=True), p._steps()))
    ctx.assert_(len(steps) == len(node.kids), "no other steps")
    for k in node.kids:
        ctx.assert_(k.name in steps, "the steps")
        check_state(ctx, steps[k.name], k)
    for old, text, lock, tags, kids in node.olds:
        ctx.assert_(old == text and old._locked == lock, "steps replaced are as they were")
        ctx.assert_(len(set(old._tags)) == len(set(tags)) and all([t in old._tags for t in tags]), "with their tags")
        ctx.assert_(list(old._steps(keys=True)) == kids, "and steps")


def history(ctx, ops, rules, n):
    tuples = [(r, ctx.str("to%d" % i, n, "x/")) for i, r in enumerate(rules)]
    p = pmods_from_tuples(tuples).step() if tuples else Pstep()
    node = Node("", [rules_of(tuples)])
    for i, op in enumerate(ops):
        if op == "any":
            op = ctx.choice("op%d" % i, OPS)
        apply_op(ctx, i, op, p, node, n)
        check_state(ctx, p, node)
    same_set(ctx, p._paths(), leaves(node), "the paths")
    for t in ("t", "u"):
        same_set(ctx, p._paths(tag=t), leaves(node, tag=t), "the tagged paths")
    ctx.observe(p._paths())


def cases_m05(tier):
    q = tier == "quick"
    out = []
    for rules in ([], ["/a"], ["/a", "/a/a"]):
        for n in (0, 1, 2):
            out.append(("history", dict(ops=["any"], rules=rules, n=n)))
    for mid in ("lock", "fix"):
        out.append(("history", dict(ops=["assign", mid, "assign"], rules=[], n=0)))
    for a in OPS:
        for rules in ([], ["/a"]):
            if not q or not rules:
                out.append(("history", dict(ops=[a, "any"], rules=rules, n=2)))
        out.append(("history", dict(ops=[a, "any"], rules=["/a"], n=1)))
    for mid in ("lock", "fix", "set0", "set1", "set3"):
        for n in (1, 2):
            if q and n > 1:
                continue
            if mid != "set3" or not q:
                out.append(("history", dict(ops=[mid, "assign", "assign"], rules=[], n=n)))
                out.append(("history", dict(ops=["assign", mid, "assign"], rules=["/a"] if n == 1 else [], n=n)))
    out.append(("history", dict(ops=["tag", "assign", "untag"], rules=[], n=1)))
    out.append(("history", dict(ops=["tag", "tag", "untag"], rules=[], n=1)))
    out.append(("history", dict(ops=["touch", "assign", "tag"], rules=[], n=1)))
    out.append(("history", dict(ops=["touch", "assign", "touch"], rules=[], n=1)))
    out.append(("history", dict(ops=["tag", "assign", "touch"], rules=[], n=1)))
    out.append(("history", dict(ops=["tag", "assign", "tag"], rules=[], n=1)))
    out.append(("history", dict(ops=["tag", "untag", "tag"], rules=[], n=1)))
    out.append(("history", dict(ops=["tag", "tag", "assign"], rules=[], n=1)))
    if not q:
        for n in (1, 2):
            out.append(("history", dict(ops=["any"] * 3, rules=[], n=n)))
            out.append(("history", dict(ops=["any"] * 3, rules=["/a"], n=n)))
    return out


# ---------------------------------------------------------------- M06: exporting the renames
def origins(node, at=(False, 0, ())):
    """(original path, text) of every step."""
    at = walk([node.name], at)
    out = [(spell(at) if at != (True, 0, ()) else "", node.text)]
    for k in node.kids:
        out = out + origins(k, at)
    return out


def exported(ctx, rules, lens, chains, root="", assigns=0, talph="x/", names="ab"):
    tuples = []
    for i, r in enumerate(rules):
        tuples.append((r, ctx.str("to%d" % i, lens[i], talph)) if isinstance(r, str) else r)
    pm = pmods_from_tuples(tuples)
    p = pm.step(root) if rules else Pstep(root)
    node = Node(root, [rules_of(tuples)])
    hist = [[ctx.choice("n%d%d" % (i, j), names) for j in range(n)] for i, n in enumerate(chains)]
    for i, nms in enumerate(hist):
        q, m = p, node
        for j, nm in enumerate(nms):
            if i < assigns and j == len(nms) - 1:
                txt = ctx.str("atext%d" % i, 1 + i, talph)
                setattr(q, nm, txt)
                m.kid(nm).text = txt
                ctx.reach("renamed")
            q, m = getattr(q, nm), m.kid(nm)
    pairs = list(p._derrive_map_tuples())
    ctx.observe(pairs)
    want = origins(node)
    ctx.assert_(len(pairs) == len(want), "one pair for each step")
    for i in range(1, len(pairs)):
        ctx.assert_(pairs[i - 1][0] <= pairs[i][0], "sorted by path")
    for frm, to in want:
        ctx.assert_(ctx.any([ctx.all([a == frm, b == to]) for a, b in pairs]), "each step with its text")
    again = pmods_from_tuples(pairs).step(root)
    for nms in hist:
        q, m = again, node
        for nm in nms:
            q, m = getattr(q, nm), m.kid(nm)
            ctx.assert_(q == m.text, "the same texts when rebuilt")
    ctx.assert_(list(again._paths()) == list(p._paths()), "the same paths when rebuilt")
    ctx.assert_(list(again._derrive_map_tuples()) == pairs, "and the same pairs")
    ctx.reach("rebuilt")


def cases_m06(tier):
    q = tier == "quick"
    out = []
    for rules in ([], ["/a"], ["/a", "/a/b"], ["/a/b"]):
        for a in (1, 2) if rules else (0,):
            for b in (0, 1) if len(rules) > 1 else (0,):
                for chains in ([1], [2], [2, 1], [2, 2], [3]) + (() if q else ([3, 2], [2, 2, 1])):
                    for assigns in range(0, min(2, len(chains)) + 1):
                        out.append(("exported", dict(rules=rules, lens=[a, b][:len(rules)], chains=chains, assigns=assigns)))
    for chains in ([1], [2, 1], [1, 1, 1]):
        out.append(("exported", dict(rules=["/A"], lens=[1], chains=chains, assigns=1, names=("b", "A", "c", "B1"))))
    for chains in ([1], [2, 1]):
        out.append(("exported", dict(rules=["r/a"], lens=[2], root="r", chains=chains, assigns=1)))
        out.append(("exported", dict(rules=[], lens=[], root="r", chains=chains, assigns=1)))
        out.append(("exported", dict(rules=[("/~a(.*)", r"B\1"), ("/~(.)b?", r"B\1")], lens=[], chains=chains,
                                     names=("a", "b", "a1"))))
    return out


# ---------------------------------------------------------------- M08: looking at trees and rules
def shown(node):
    return node.text if node.text == node.name else "(%s-->%s)" % (node.name, node.text)


def listed(ctx, node, chain=(), tag=None):
    """The debug listing; what a step's text relocates is left as it is, within its parentheses."""
    chain = chain + (node,)
    out = []
    if tag is not None and tag in node.tags or tag is None and not node.kids:
        at = walk([shown(n) for n in chain])
        out.append(spell(at))
    for k in node.kids:
        out = out + listed(ctx, k, chain, tag)
    return out


def looked_at(ctx, rules, lens, chains, assigns=0, tags=0, root="", talph="x/", names="ab"):
    tuples = [(r, ctx.str("to%d" % i, lens[i], talph)) for i, r in enumerate(rules)]
    pm = pmods_from_tuples(tuples)
    p = pm.step(root) if rules else Pstep(root)
    node = Node(root, [rules_of(tuples)])
    for i, n in enumerate(chains):
        q, m = p, node
        for j in range(n):
            nm = ctx.choice("n%d%d" % (i, j), names)
            if i < assigns and j == n - 1:
                txt = ctx.str("atext%d" % i, 1, talph)
                setattr(q, nm, txt)
                m.kid(nm).text = txt
            q, m = getattr(q, nm), m.kid(nm)
        if i < tags:
            q._tag("t")
            m.tags = list(m.tags) + ["t"]
    paths = list(p._paths())
    plain = [x for x in dir(Pstep("x")) if x[:1] != "_"]

    def look(s, m):
        ctx.assert_(sorted([x for x in dir(s) if x[:1] != "_"]) == sorted(plain + [k.name for k in m.kids]), "children are listed as attributes")
        ctx.assert_(list(s._steps(keys=True)) == [k.name for k in m.kids], "children by name")
        kids = list(s._steps())
        ctx.assert_(len(kids) == len(m.kids) and all([c is getattr(s, k.name) for c, k in zip(kids, m.kids)]), "the children themselves")
        ctx.assert_(repr(s) == "`" + m.text + "`", "spelled within backticks")
        for c, k in zip(kids, m.kids):
            look(c, k)

    look(p, node)
    same_set(ctx, p._paths(with_orig=True), listed(ctx, node), "the debug listing")
    if tags:
        same_set(ctx, p._paths(with_orig=True, tag="t"), listed(ctx, node, tag="t"), "the debug listing by tag")
    ctx.assert_(list(p._paths()) == paths, "looking adds nothing")
    ctx.observe(p._paths(with_orig=True))
    ctx.reach("renamed" if any([shown(k) != k.name for k in node.kids]) else "plain")


def schemas(ctx, n):
    """A history of touching the schemas of steps, and of renaming these."""
    p = Pstep()
    exp = {}
    for i in range(n):
        at = ctx.choice("at%d" % i, ("", "a", "b", "a.b"))
        s = p
        for nm in at.split(".") if at else []:
            s = getattr(s, nm)
        what = ctx.choice("what%d" % i, ("touch", "set", "rename") if at else ("touch", "set"))
        if what == "rename":
            parent = p.a if at == "a.b" else p
            setattr(parent, at[-1], ctx.str("text%d" % i, 1, "xy"))
        else:
            sch = s._schema
            ctx.assert_(s._schema is sch, "the same one each time")
            exp[at] = exp.get(at, {})
            if what == "set":
                v = ctx.str("title%d" % i, 1, "xy")
                sch.title = v
                exp[at] = dict(exp[at], title=v)
        for path in ("", "a", "b", "a.b"):
            s, there = p, True
            for nm in path.split(".") if path else []:
                there = there and nm in list(s._steps(keys=True))
                s = getattr(s, nm) if there else s
            if there:
                ctx.assert_(bool(s._schema_exists()) == (path in exp), "a schema only once touched")
                if path in exp:
                    ctx.assert_(s._schema.todict() == exp[path], "each step has its own, also when renamed")
    ctx.assert_(not Pstep()._schema_exists(), "nor have new steps")
    ctx.reach("schemas")


def compared(ctx, na, nb, npath, froms):
    """Rules are equal when made alike, and then map every path alike."""
    ta = [(ctx.choice("a%d" % i, froms), ctx.str("ta%d" % i, 1, "xy")) for i in range(na)]
    tb = [(ctx.choice("b%d" % i, froms), ctx.str("tb%d" % i, 1, "xy")) for i in range(nb)]
    a, b = pmods_from_tuples(ta), pmods_from_tuples(tb)
    ctx.assert_(a == a and a == pmods_from_tuples(ta) and not a != pmods_from_tuples(ta), "rules made alike are equal")
    for other in (None, "a", [], {}, 0, tuple(ta)):
        ctx.assert_(not a == other, "nothing else is")
    eq = bool(a == b)
    ctx.assert_(eq == bool(b == a) and eq != bool(a != b), "both ways")
    ctx.assert_(not eq or ctx.eq(norm(dump(a)), norm(dump(b))), "equal rules are the same")
    ctx.assert_(eq or not ctx.eq(norm(dump(a)), norm(dump(b))), "the same rules are equal")
    if eq:
        path = ctx.str("path", npath, "/ab")
        ctx.assert_(a.map_path(path) == b.map_path(path), "equal rules map every path alike")
        ctx.reach("equal")
    else:
        ctx.reach("other")


def cases_m08(tier):
    q = tier == "quick"
    out = []
    for rules in ([], ["/a"], ["/a", "/a/b"], ["", "/b"]):
        for a in (1, 2) if rules else (0,):
            for chains in ([1], [2], [2, 1], [2, 2]) + (() if q else ([3], [3, 2], [2, 2, 1])):
                for assigns, tags in ((0, 0), (1, 0), (0, 1), (1, 2)):
                    if q and assigns + len(rules) > 2:
                        continue
                    out.append(("looked_at", dict(rules=rules, lens=[a, 1][:len(rules)], chains=chains, assigns=assigns, tags=tags)))
    for chains in ([1], [2], [2, 1]):
        out.append(("looked_at", dict(rules=["/a"], lens=[0], chains=chains, assigns=0, tags=1)))
        out.append(("looked_at", dict(rules=["/a/b", "/a"], lens=[0, 0], chains=chains, assigns=1, tags=0)))
    for chains in ([1], [2, 1]):
        out.append(("looked_at", dict(rules=["r/a"], lens=[2], root="r", chains=chains, assigns=1, tags=1)))
    out.append(("schemas", dict(n=2 if q else 4)))
    out.append(("schemas", dict(n=3)))
    for froms in (["/a", "/b", "/a/b", ""], ["/~a.*", "/~.*", "/~a|b"], ["/a/~a.*", "/a/~.*", "/a"], ["/~.*/a", "/~.*/b", "/~.*"]):
        for na, nb in ((0, 1), (1, 1), (2, 2), (1, 2)) + (() if q else ((3, 3), (2, 3))):
            if na or froms[0] == "/a":
                out.append(("compared", dict(na=na, nb=nb, npath=3 if q and na + nb > 3 else 4, froms=froms)))
    return out


PROPERTIES = {
    "M01": {
        "cases": cases_m01,
        "bounds": {"quick": "up to 3 steps of <=3 characters (5 in all) over `.` `a` (and `/` `~` for 2 steps), longer sequences "
                            "of dots up to 6 steps",
                   "thorough": "up to 4 steps of <=3 characters (7 in all); sequences of dots up to 8 steps"},
        "oracle": "a walker keeping (rooted, levels up, names)",
        "must_reach": ["rooted", "above", "below"],
        "budget": {"quick": 90, "thorough": 500},
    },
    "M02": {
        "cases": cases_m02,
        "bounds": {"quick": "13 shapes of exact rules with free targets of <=3 characters over `a . /`, 12 sets of "
                            "pattern rules, every path of <=5 characters over `/ a b` (`.` or `1`)",
                   "thorough": "targets of <=4, paths of <=7 characters"},
        "outside": ["steps with escapes (`~0`, `~1`): the paths returned are not escaped", "arbitrary patterns"],
        "oracle": "all matching rules kept side by side in order of priority (nothing is merged)",
        "must_reach": ["mapped"],
        "budget": {"quick": 120, "thorough": 700},
    },
    "M03": {
        "cases": cases_m03,
        "bounds": {"quick": "two sets of <=2 rules each from 8 origins, free targets; merging again with paths of <=4",
                   "thorough": "sets of <=3 rules; paths of <=4"},
        "oracle": "the rule set built from the rules of both; snapshots of the operands; the reference of M02",
        "must_reach": ["merged", "mapped"],
        "budget": {"quick": 120, "thorough": 600},
    },
    "M04": {
        "cases": cases_m04,
        "bounds": {"quick": "up to 2 exact rules with free targets of <=3 characters over `x /`, 6 sets of pattern "
                            "rules, 1-2 chains of <=3 accesses, one assignment of <=2 characters; single steps made from pairs, rules or "
                            "another step, with targets of <=3 characters over `x ~ 0 1 /`",
                   "thorough": "up to 3 chains, targets of <=4"},
        "outside": ["targets with dots (relative to the parent in trees but to the step itself when mapping paths; both "
                    "are pinned by the project's tests)", "escapes in the targets of whole trees (single steps are unescaped)"],
        "oracle": "a tree of nodes spelled by the reference of M02; the paths that the rules map",
        "must_reach": ["tree", "assigned", "fresh tree", "made", "not rules", "copied"],
        "budget": {"quick": 120, "thorough": 600},
    },
    "M05": {
        "cases": cases_m05,
        "bounds": {"quick": "every history of <=2 operations, and of 3 around locks and tags, on two levels of a tree "
                            "with <=2 mapped steps, texts of <=2 characters",
                   "thorough": "every history of 3"},
        "oracle": "a tree of nodes with their lock and tags",
        "must_reach": ["replaced", "lock refused", "locked", "assign refused", "assigned", "bad value"],
        "budget": {"quick": 200, "thorough": 600},
    },
    "M06": {
        "cases": cases_m06,
        "bounds": {"quick": "up to 2 rules with free targets of <=2 characters over `x /`, a set of patterns, 1-2 chains of <=3 "
                            "accesses, up to 2 renames by assignment",
                   "thorough": "up to 3 chains, targets of <=4"},
        "oracle": "a tree of nodes with their names and texts; the tree rebuilt by the rules exported",
        "must_reach": ["renamed", "rebuilt"],
        "budget": {"quick": 120, "thorough": 600},
    },
    "M08": {
        "cases": cases_m08,
        "bounds": {"quick": "up to 2 rules with free targets of <=2 characters over `x /`, 1-2 chains of <=2 accesses, one rename, up to "
                            "2 tags; histories of 3 touches, changes or renames of the schemas of 4 steps; sets of <=2 rules out of 3-4 "
                            "origins, with paths of <=4",
                   "thorough": "up to 3 chains of 3, histories of 4, sets of 3 rules"},
        "oracle": "a tree of nodes with their names, texts and tags; the tables of rules",
        "must_reach": ["renamed", "plain", "schemas", "equal", "other"],
        "budget": {"quick": 120, "thorough": 600},
    },
}
