"""Components and assemblies."""
from pandalone import components as C
from pandalone.components import Assembly, Component, FuncComponent
from pandalone.mappings import Pstep, pmods_from_tuples


class Failure(Exception):
    pass


class Recorded(Component):
    """Notes how it was built."""

    def __init__(self, name, log, inp, out, fails):
        Component.__init__(self, name)
        self.log, self.paths, self.fails = log, (inp, out), fails

    def __call__(self, *args, **kws):
        pass

    def _build(self, pmod=None):
        self.log.append((self._name, pmod))
        if self.fails:
            raise Failure(self._name)
        self._inp, self._out = list(self.paths[0]), list(self.paths[1])


def union(lists):
    out = []
    for ps in lists:
        for p in ps:
            if not any([p == o for o in out]):
                out.append(p)
    n = len(out)
    for i in range(n):
        for j in range(n - 1 - i):
            if out[j + 1] < out[j]:
                out[j], out[j + 1] = out[j + 1], out[j]
    return out


def assembled(ctx, shape, n, fail, lazy, nested):
    """`shape`: the number of inputs and outputs of each component."""
    log = []
    comps = []
    for i, (a, b) in enumerate(shape):
        inp = [ctx.str("in%d_%d" % (i, j), n, "a/b") for j in range(a)]
        out = [ctx.str("out%d_%d" % (i, j), n, "a/b") for j in range(b)]
        fails = ctx.bool("fail%d" % i) if fail else False
        comps.append(Recorded("c%d" % i, log, inp, out, fails))
    parts = list(comps)
    if nested and len(parts) > 1:
        parts = [parts[0], Assembly(parts[1:], name="inner")]
    ass = Assembly((c for c in parts) if lazy else parts)
    pmod = ctx.choice("pmod", [None, "mappings"])
    st, got = ctx.outcome(ass._build, pmod) if pmod else ctx.outcome(ass._build)
    stop = None
    for i, c in enumerate(comps):
        if c.fails:
            stop = i
            break
    built = comps if stop is None else comps[:stop + 1]
    ctx.observe(st, [c for c, _ in log])
    ctx.assert_([c for c, _ in log] == [c._name for c in built], "every component built, in order")
    for _, m in log:
        ctx.assert_(m == pmod, "with the mappings given")
    if stop is not None:
        ctx.assert_(st == "err" and isinstance(got, Failure) and str(got) == "c%d" % stop, "the failure is reported")
        ctx.reach("failed")
        return
    ctx.assert_(st == "ok", "built")
    for k in range(2):
        ctx.assert_(list(ass._inp) == union([c.paths[0] for c in comps]), "the inputs")
        ctx.assert_(list(ass._out) == union([c.paths[1] for c in comps]), "the outputs")
        ctx.observe(list(ass._inp), list(ass._out))
        if k == 0:
            ass._build(pmod)
    ctx.assert_(len(log) == 2 * len(comps), "built again")
    ctx.assert_(list(ass._iter_validations()) == [], "valid")
    ctx.reach("built")


ACCESSES = {
    "none": ([], [], []),
    "in": (["A"], [], []),
    "out": ([], ["B"], []),
    "both": (["A"], ["A"], []),
    "deep": (["A.B", "A.C"], ["B.A"], []),
    "two": (["A", "B"], ["C"], []),
    "fixed": (["A"], ["B"], ["/fixed/X"]),
    "root": (["A"], ["B"], None),
}


def access(p, chain):
    for name in chain.split("."):
        p = getattr(p, name)


class Func:
    """A cfunc doing the accesses listed, noting its calls."""

    def __init__(self, name, kind, calls):
        self.__name__, self.kind, self.calls = name, kind, calls

    def __call__(self, comp, *args, **kws):
        inp, out, fixed = ACCESSES[self.kind]
        self.calls.append((comp, args, kws))
        root = "/r" if fixed is None else None
        for chain in inp:
            access(comp.pinp(root) if root else comp.pinp(), chain)
        for chain in out:
            access(comp.pout(root) if root else comp.pout(), chain)
        if fixed:
            comp._inp.extend(fixed)
            comp._out.append("/fixed/Y")


def wanted(name, kind, pmod):
    inp, out, fixed = ACCESSES[kind]
    res = []
    for chains in (inp, out):
        if chains:
            p = Pstep("/r" if fixed is None else name, maps=pmod)
            for chain in chains:
                access(p, chain)
            res.append(p._paths())
        else:
            res.append([])
    if fixed:
        return list(fixed) + res[0], ["/fixed/Y"] + res[1]
    return res


def rules_of(ctx, tag, kinds, n):
    kind = ctx.choice("rules" + tag, kinds)
    if kind is None:
        return None
    return pmods_from_tuples([(frm, ctx.str("to%s%d" % (tag, i), n, "x/")) for i, frm in enumerate(kind)])


KINDS = [None, [], ["f1"], ["f1/A", "f2/A"], ["~.*"], ["f1", "f2"], ["/r"], ["f1", "f1/A"]]


def same(ctx, got, want, msg):
    ctx.assert_(union([got]) == union([want]), msg)
    ctx.assert_(len(got) == len(want), msg + " (as many)")


def functions(ctx, kinds, rules, n, again):
    calls = []
    fs = [Func("cfunc_f%d" % (i + 1), k, calls) for i, k in enumerate(kinds)]
    comps = [FuncComponent(f) for f in fs]
    ass = Assembly(comps)
    ctx.assert_([c._name for c in comps] == ["f%d" % (i + 1) for i in range(len(fs))], "the names")
    for k in range(2 if again else 1):
        pmod = rules_of(ctx, str(k), rules, n)
        del calls[:]
        ass._build(pmod)
        ctx.assert_([c for c, _, _ in calls] == comps, "every function is called once, with its component")
        wants = [wanted("f%d" % (i + 1), kind, pmod) for i, kind in enumerate(kinds)]
        ctx.observe(list(ass._inp), list(ass._out))
        for c, w in zip(comps, wants):
            same(ctx, c._inp, w[0], "the inputs of a component")
            same(ctx, c._out, w[1], "the outputs of a component")
        ctx.assert_(list(ass._inp) == union([w[0] for w in wants]), "all inputs, sorted")
        ctx.assert_(list(ass._out) == union([w[1] for w in wants]), "all outputs, sorted")
        ctx.reach("rebuilt" if k else "built by functions")
        # running them afterwards
        for c, w, kind in zip(comps, wants, kinds):
            del calls[:]
            inp = list(c._inp)
            tree = {"a": 1}
            c(tree, 5, k=6)
            ctx.assert_(len(calls) == 1, "run once")
            comp, args, kws = calls[0]
            ctx.assert_(comp is c and args[0] is tree and args[1:] == (5,) and kws == {"k": 6}, "its arguments")
            if ACCESSES[kind][0]:
                ctx.assert_(c.pinp() is c.pinp(), "one tree of inputs")
                same(ctx, c.pinp()._paths(), [p for p in w[0] if p != "/fixed/X"], "the inputs when running")
            if ACCESSES[kind][1]:
                same(ctx, c.pout()._paths(), [p for p in w[1] if p != "/fixed/Y"], "the outputs when running")
            ctx.reach("run")


def changing(ctx, first, n):
    """A function accessing other paths when built again, with the same mappings."""
    calls = []
    f = Func("cfunc_f1", first, calls)
    comp = FuncComponent(f)
    ass = Assembly([comp])
    pmod = rules_of(ctx, "", [None, ["f1"], ["f1/A"]], n)
    for k in range(3):
        if k:
            f.kind = ctx.choice("kind%d" % k, sorted(ACCESSES)) if k == 1 else first
        ass._build(pmod)
        w = wanted("f1", f.kind, pmod)
        same(ctx, comp._inp, w[0], "the inputs now accessed")
        same(ctx, comp._out, w[1], "the outputs now accessed")
        ctx.assert_(list(ass._inp) == union([w[0]]) and list(ass._out) == union([w[1]]), "and those of all")
    ctx.assert_(len(calls) == 3, "called for each build")
    ctx.reach("changing")


def failing(ctx, count):
    """A function failing when building or running."""
    at = ctx.int("at", 0, count)
    running = ctx.bool("running")
    state = {"armed": not running}
    calls = []

    def make(i):
        def cfunc_f(comp, tree):
            calls.append(i)
            if state["armed"] and at == i:
                raise Failure(str(i))
        return cfunc_f

    comps = [FuncComponent(make(i), name="n%d" % i) for i in range(count)]
    ass = Assembly(comps, name="top")
    ctx.assert_(ass._name == "top" and [c._name for c in comps] == ["n%d" % i for i in range(count)], "the names given")
    st, got = ctx.outcome(ass._build)
    if not running:
        if at < count:
            ctx.assert_(st == "err" and isinstance(got, Failure) and str(got) == str(at), "the failure is reported")
            ctx.assert_(calls == list(range(at + 1)), "and nothing is built afterwards")
            ctx.reach("failed function")
        else:
            ctx.assert_(st == "ok" and calls == list(range(count)), "built")
        return
    ctx.assert_(st == "ok", "built")
    state["armed"] = True
    for i, c in enumerate(comps):
        st, got = ctx.outcome(c, {})
        if at == i:
            ctx.assert_(st == "err" and isinstance(got, Failure), "a failing run is reported")
        else:
            ctx.assert_(st == "ok", "the others run")


def names(ctx, n):
    s = ctx.str("name", n, "cfun_x")
    pre = ctx.choice("pre", ["", "cfunc_", "cfunc_cfunc_", "xcfunc_", "cfunc", "CFUNC_", "Cfunc_"])
    name = pre + s

    def f(comp, tree):
        pass

    f.__name__ = ctx.concrete(name)
    c = FuncComponent(f)
    ctx.assert_(c._name == (name[6:] if name[:6] == "cfunc_" else name), "named after its function")
    ctx.assert_(FuncComponent(f, name=s)._name == s, "named explicitly")
    ctx.assert_(Assembly([])._name == "assembly", "the default name")
    ctx.reach("named")


def cases_c01(tier):
    q = tier == "quick"
    out = []
    shapes = [[], [(1, 1)], [(2, 1)], [(1, 1), (1, 1)], [(1, 0), (0, 1), (1, 0)]]
    if not q:
        shapes += [[(2, 1), (1, 2)], [(1, 1), (1, 1), (1, 1)], [(3, 0)]]
    for shape in shapes:
        for lazy in (False, True):
            for nested in (False, True):
                out.append(("assembled", dict(shape=shape, n=2 if sum([a + b for a, b in shape]) < 4 else 1, fail=False,
                                              lazy=lazy, nested=nested)))
                out.append(("assembled", dict(shape=shape, n=1, fail=True, lazy=lazy, nested=nested)))
    for kind in ACCESSES:
        out.append(("functions", dict(kinds=[kind], rules=KINDS, n=2, again=False)))
        out.append(("functions", dict(kinds=[kind], rules=[None, ["f1"]], n=1, again=True)))
    for a in ACCESSES:
        for b in ACCESSES:
            if q and a > b:
                continue
            out.append(("functions", dict(kinds=[a, b], rules=KINDS, n=1 if q else 2, again=False)))
    out.append(("functions", dict(kinds=["both", "deep"], rules=KINDS, n=1, again=True)))
    if not q:
        out.append(("functions", dict(kinds=["both", "deep", "two"], rules=KINDS, n=1, again=True)))
    for kind in ACCESSES:
        out.append(("functions", dict(kinds=[kind], rules=[["f1"], ["~.*"], ["/r"], ["f1", "f1/A"]], n=0, again=False)))
    for kind in ACCESSES:
        out.append(("changing", dict(first=kind, n=1)))
    for count in range(5):
        out.append(("failing", dict(count=count)))
    for n in range(3 if q else 4):
        out.append(("names", dict(n=n)))
    return out


PROPERTIES = {
    "C01": {
        "cases": cases_c01,
        "bounds": {"quick": "up to 3 components with <=3 inputs and outputs of <=2 characters, flat or nested, any of them "
                            "failing; up to 2 functions of 8 kinds, built twice, or thrice with other accesses, under 8 sets of rules with targets of <=2 characters",
                   "thorough": "up to 3 functions; 6 paths"},
        "outside": ["calling an assembly, which does nothing yet", "the name_uniqueizer hook"],
        "oracle": "recorded calls; own union and sort; path-trees built by hand with the same accesses (decided by M04)",
        "must_reach": ["failed", "built", "built by functions", "rebuilt", "run", "changing", "failed function", "named"],
        "budget": {"quick": 120, "thorough": 600},
    },
}
