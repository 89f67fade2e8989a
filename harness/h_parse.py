"""Parsing of xl-refs and call-specs."""
import json

from pandalone.xleash import CallSpec, Cell, Edge, Lasso, parse_xlref
from pandalone.xleash._parse import (parse_call_spec, parse_expansion_moves,
                                     parse_xlref_fragment)

LETTERS = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz"
L_LETTERS = tuple(LETTERS)
D19 = tuple("123456789")
D09 = tuple("0123456789")
LURD = tuple("LURDlurd")
WS = tuple(" \t\n\r\x0b\x0c\x1c\x1d\x1e\x1f")
MOVES = ("L", "U", "R", "D", "LD", "LU", "UL", "UR", "RU", "RD", "DL", "DR")
TOP = ("^", "^", None, None)
BOTTOM = ("_", "_", None, None)


def anycase(ctx, name, word):
    """word with every letter in either case"""
    out = ""
    for i, c in enumerate(word):
        out = out + (ctx.str("%s.%d" % (name, i), 1, c.upper() + c.lower()) if c.isalpha() else c)
    return out


def edge(ctx, name, form, mv):
    """(text, (row, col, mov, mod)) of one edge"""
    if form is None:
        return "", None
    kind, a, b = form
    if kind == "A1":       # a: column, b: row
        col = ctx.str(name + "col", len(a), LETTERS) if a.isalpha() else a
        row = digits(ctx, name + "row", len(b)) if b.isdigit() else b
        txt = col + row
    else:                  # a: row, b: column
        row, r = rcnum(ctx, name + "row", a)
        col, c = rcnum(ctx, name + "col", b)
        txt = anycase(ctx, name + "R", "R") + row + anycase(ctx, name + "C", "C") + col
    mov = mod = None
    if mv == "any":
        mov = ctx.choice(name + "mov", MOVES)
        mod = ctx.choice(name + "mod", (None, "+", "?"))
    elif mv:
        mov, mod = mv
    if mov:
        txt = txt + "(" + anycase(ctx, name + "mv", mov) + (mod or "") + ")"
    return txt, (row, col.upper(), mov, mod)


def digits(ctx, name, n):
    return ctx.str(name + "0", 1, "123456789") + (
        ctx.str(name + "1", n - 1, "0123456789") if n > 1 else "")


def rcnum(ctx, name, tpl):
    if tpl in ("^", "_", "."):
        return tpl, None
    neg = tpl[0] == "-"
    d = digits(ctx, name, len(tpl) - neg)
    return ("-" + d if neg else d), None


def same_edge(ctx, e, exp, msg):
    if exp is None:
        ctx.assert_(e is None, msg + ": no edge")
        return
    ctx.assert_(isinstance(e, Edge) and isinstance(e.land, Cell), msg + ": an edge")
    row, col, mov, mod = exp
    ctx.assert_(e.land.row == row, msg + " row")
    ctx.assert_(e.land.col == col, msg + " column")
    ctx.assert_((e.mov is None) == (mov is None) and (mov is None or e.mov == mov), msg + " moves")
    ctx.assert_((e.mod is None) == (mod is None) and (mod is None or e.mod == mod), msg + " modifier")


FILTERS = [
    (None, None, None),
    ('"foo"', ("foo", [], {}), None),
    ('["foo", {"k": 1}, [2]]', ("foo", [2], {"k": 1}), None),
    ('{"opts": {"a": 1}, "func": "bar", "args": ["x", null]}', ("bar", ["x", None], {}), {"a": 1}),
    ('{"opts": {"a": {"b": [1]}}}', None, {"a": {"b": [1]}}),
    ('{"func": "f:A1", "kwds": {"a": "#b:c(R)"}}', ("f:A1", [], {"a": "#b:c(R)"}), None),
    ('["f!:", {"k": "x!A1:[1]", "!": "a!:{"}]', ("f!:", [], {"k": "x!A1:[1]", "!": "a!:{"}), None),
    ('"f!:"', ("f!:", [], {}), None),
]


def compose(ctx, st, nd, stmv, ndmv, exp, filt, sheet, url, colon):
    stt, ste = edge(ctx, "st", st, stmv)
    ndt, nde = edge(ctx, "nd", nd, ndmv)
    # urllib drops tabs and newlines from any URL: with a file part only blanks
    txt = ctx.str("ws", sheet[0], " \t\n" if url is None else " ")
    sh = None
    if sheet[1] is not None:
        n = sheet[1]
        sh = ctx.str("sheet", n, tuple(c for c in range(32, 127) if c not in (33, 58)))
        if n:
            ctx.assume(sh[0] != " ")
        txt = txt + sh + "!"
        sh = sh if n else None
    txt = txt + stt
    if colon:
        txt = txt + ":" + ndt
    exps = None
    if exp:
        exps = ctx.str("exp", exp, "LURDlurd?123456789")
        txt = txt + ":" + exps
    fj, fcall, fopts = FILTERS[filt]
    if fj:
        txt = txt + ":" + ("\n " if filt == 2 and url is None else "") + fj
    if colon:
        ste = ste or TOP
        nde = nde or BOTTOM
    elif ste is None:
        ste, nde = TOP, BOTTOM
    if url is None:
        ctx.observe(txt)
        res = parse_xlref_fragment(txt)
    else:
        full = url + "#" + txt
        if not txt:
            st_, v = ctx.outcome(parse_xlref, full)
            ctx.assert_(st_ == "err" and isinstance(v, SyntaxError), "no fragment is a syntax error")
            return
        res = parse_xlref(full)
        ctx.assert_(res["url_file"] == (url or None), "the file part")
        ctx.assert_(res["xl_ref"] == full, "the whole text is recorded")
        ctx.assert_(not set(res) - set(Lasso._fields), "only fields of a lasso")
    ctx.observe(res["sh_name"], res["exp_moves"])
    ctx.assert_((res["sh_name"] is None) == (sh is None) and (sh is None or res["sh_name"] == sh),
                "the sheet name")
    same_edge(ctx, res["st_edge"], ste, "1st edge")
    same_edge(ctx, res["nd_edge"], nde, "2nd edge")
    ctx.assert_((res["exp_moves"] is None) == (exps is None) and (
        exps is None or res["exp_moves"] == exps), "the expansion moves")
    ctx.assert_(res["opts"] == fopts, "the options of the filters")
    if fcall is None and fj is not None and fopts:
        ctx.assert_(res["call_spec"] is None, "no call given")
    elif fcall is None:
        ctx.assert_(res["call_spec"] is None, "no filters")
    else:
        ctx.assert_(tuple(res["call_spec"]) == fcall, "the filter call")
    ctx.reach("parsed")


def quotes(ctx, part):
    """Excel's typographic quotes are as good as plain ones."""
    texts = {"text": "~f*~", "list": "[~f*~, {~k~: 1}]", "object": "{~func~:~f*~}"}
    body = texts[part]
    f = ctx.str("f", 1, "ab1")
    out, n = "#A1:", 0
    for c in body:
        if c == "~":
            c = ctx.choice("q%d" % n, ('"', "\u201c", "\u201d"))
            n += 1
        out = out + (f if c == "*" else c)
    got = parse_xlref(out)
    ctx.assert_(got["call_spec"] == CallSpec("f" + f, [], {"k": 1} if part == "list" else {}), "the same call")
    ctx.reach("quotes")


def cases_x01(tier):
    base = dict(st=("A1", "A", "1"), nd=None, stmv=None, ndmv=None, exp=0, filt=0,
                sheet=(0, None), url=None, colon=0)
    out = [("quotes", dict(part=p)) for p in ("text", "list", "object")]

    def add(**kw):
        out.append(("compose", dict(base, **kw)))

    sts = [None, ("A1", "A", "1"), ("A1", "AA", "11"), ("A1", "_", "^"), ("A1", "^", "1"), ("A1", "A", "_"),
           ("RC", "1", "1"), ("RC", "-1", "11"), ("RC", "^", "-1"), ("RC", "_", "_"), ("RC", ".", "."),
           ("RC", ".", "1"), ("RC", "-1234", "567"), ("RC", "567", "-1234"), ("A1", "XFD", "12345"),
           ("A1", "ABCDE", "1234567")]
    nds = [None, ("A1", "A", "1"), ("A1", ".", "."), ("A1", "_", "."), ("A1", "AA", "1"),
           ("RC", "1", "-1"), ("RC", ".", "_"), ("RC", ".", "."), ("RC", "-1234", "567"), ("RC", "567", "-1234"),
           ("A1", "XFD", "1234567")]
    for s in sts:
        add(st=s)
        if s:
            add(st=s, stmv="any")
        for n in nds:
            add(st=s, nd=n, colon=1)
            if n and (tier == "thorough" or s in (None, sts[1], sts[7])):
                add(st=s, nd=n, colon=1, ndmv="any", stmv=("DR", "?") if s else None)
    for s in (None, sts[1], sts[8]):
        for n in (None, nds[2], nds[5]):
            for e in (1, 2, 3):
                if e == 3 and tier != "thorough" and s is not sts[1]:
                    continue
                add(st=s, nd=n, colon=1, exp=e)
                add(st=s, nd=n, colon=1, exp=e, ndmv=("UL", "+") if n else None, filt=2, sheet=(0, 1))
            for f in range(1, len(FILTERS)):
                for c in ((0, 1) if n is None else (1,)):
                    add(st=s, nd=n, colon=c, filt=f)
                    add(st=s, nd=n, colon=c, filt=f, sheet=(1, 2), url="")
    for s in (None, sts[1], sts[6]):
        for ws in (0, 1, 2):
            for n in (None, 0, 1, 2, 3) if tier == "thorough" else (None, 0, 1, 2):
                for u in (None, "", "book.xlsx", "http://h/a b.xls?q=1", "a b .xls "):
                    add(st=s, sheet=(ws, n), url=u)
    if tier == "thorough":
        for s in sts[1:]:
            for n in nds[1:]:
                add(st=s, nd=n, colon=1, stmv="any", ndmv=("L", None), exp=2, filt=5)
    return out


# ---------------------------------------------------------------- X02: any text
def ref_edges(t, i, dot_in_a1):
    """Every edge that can start at i, in the grammar's order of preference: (edge, end)."""
    n = len(t)
    # A1: letters or _ or ^ (2nd edge also .)
    specials = ("_", "^", ".") if dot_in_a1 else ("_", "^")
    j = i
    while j < n and t[j] in L_LETTERS:
        j += 1
    cols = list(range(j, i, -1))
    if not cols and i < n and t[i] in specials:
        cols = [i + 1]
    for j in cols:
        for k in ref_row(t, j, specials, False):
            for e in ref_mov(t, k):
                yield (t[j:k], t[i:j].upper(), e[0], e[1]), e[2]
    if i < n and t[i] in ("R", "r"):
        for j in ref_row(t, i + 1, ("_", "^", "."), True):
            if j < n and t[j] in ("C", "c"):
                for k in ref_row(t, j + 1, ("_", "^", "."), True):
                    for e in ref_mov(t, k):
                        yield (t[i + 1:j], t[j + 1:k], e[0], e[1]), e[2]


def ref_row(t, i, specials, neg):
    n = len(t)
    j = i
    if neg and j < n and t[j] == "-":
        j += 1
    if j < n and t[j] in D19:
        k = j + 1
        while k < n and t[k] in D09:
            k += 1
        for e in range(k, j, -1):
            yield e
    elif j == i and i < n and t[i] in specials:
        yield i + 1


def ref_mov(t, i):
    n = len(t)
    if i < n and t[i] == "(":
        j = i + 1
        while j < n and j < i + 3 and t[j] in LURD:
            j += 1
        mov = t[i + 1:j].upper()
        if mov and mov in MOVES:
            mod = None
            if j < n and t[j] in ("+", "?"):
                mod = t[j]
                j += 1
            if j < n and t[j] == ")":
                yield mov, mod, j + 1
    yield None, None, i


def ref_end(t, i):
    n = len(t)
    return i == n or i == n - 1 and t[i] == "\n"


def ref_tail(t, i):
    """[2nd edge][:expansions] after a colon, then the end; or None. No filters."""
    for nde, j in list(ref_edges(t, i, True)) + [(None, i)]:
        if j < len(t) and t[j] == ":":
            k = j + 1
            while k < len(t) and t[k] in ("L", "U", "R", "D", "l", "u", "r", "d", "?") + D19:
                k += 1
            if k > j + 1 and ref_end(t, k):
                return nde, t[j + 1:k]
        if ref_end(t, j):
            return nde, None
    return None


def ref_body(t, i):
    for ste, j in list(ref_edges(t, i, False)) + [(None, i)]:
        if j < len(t) and t[j] == ":":
            r = ref_tail(t, j + 1)
            if r is not None:
                return ste or TOP, r[0] or BOTTOM, r[1]
        if ref_end(t, j):
            if ste is None:
                return TOP, BOTTOM, None
            return ste, None, None
    return None


def ref_parse(t):
    i = 0
    while i < len(t) and t[i] in WS:
        i += 1
    k = i
    while k < len(t) and t[k] != "!" and t[k] != ":":
        k += 1
    if k < len(t) and t[k] == "!":
        r = ref_body(t, k + 1)
        return r and ((t[i:k] if k > i else None),) + r
    r = ref_body(t, i)
    return r and (None,) + r


def anytext(ctx, head, n, alph):
    t = head + ctx.str("t", n, alph)
    st, v = ctx.outcome(parse_xlref_fragment, t)
    exp = ref_parse(t)
    if exp is None:
        ctx.reach("rejected")
        ctx.assert_(st == "err" and isinstance(v, SyntaxError), "not an xl-ref: rejected with SyntaxError")
        return
    ctx.reach("accepted")
    ctx.assert_(st == "ok", "an xl-ref is accepted")
    ctx.observe(v["sh_name"], v["st_edge"], v["nd_edge"], v["exp_moves"])
    sh, ste, nde, exps = exp
    ctx.assert_((v["sh_name"] is None) == (sh is None) and (sh is None or v["sh_name"] == sh), "sheet name")
    same_edge(ctx, v["st_edge"], ste, "1st edge")
    same_edge(ctx, v["nd_edge"], nde, "2nd edge")
    ctx.assert_((v["exp_moves"] is None) == (exps is None) and (exps is None or v["exp_moves"] == exps),
                "expansion moves")
    ctx.assert_(v["opts"] is None and v["call_spec"] is None, "no filters")


def ref_expansion(t):
    """[(moves, times or None)] or None when invalid, of the upper-cased text."""
    t = t.upper()
    toks = []
    i = 0
    while i < len(t):
        if t[i] in LURD:
            toks.append(["M", t[i]])
            i += 1
        else:
            j = i
            if t[i] == "?":
                toks.append(["N", "1"])
                i += 1
                continue
            while j < len(t) and t[j] in D09:
                j += 1
            if j == i:
                return None
            toks.append(["N", t[i:j]])
            i = j
    # `?` reads as the digit 1, so digits and `?` next to each other make one number
    merged = []
    for k, s in toks:
        if k == "N" and merged and merged[-1][0] == "N":
            merged[-1][1] = merged[-1][1] + s
        else:
            merged.append([k, s])
    out = []
    run = ""
    for x, (k, s) in enumerate(merged):
        if k == "M":
            nxt = merged[x + 1][0] if x + 1 < len(merged) else None
            if nxt == "N":
                if run:
                    out.append((run, None))
                    run = ""
                out.append((s, int(merged[x + 1][1])))
            else:
                run = run + s
        elif x == 0:
            return None
    if run:
        out.append((run, None))
    return out


def expansions(ctx, n, alph):
    t = ctx.str("t", n, alph)
    exp = ref_expansion(t)
    for _, times in exp or ():
        ctx.assume(times is None or times < 40)
    st, v = ctx.outcome(parse_expansion_moves, t)
    if exp is None:
        ctx.reach("bad expansion")
        ctx.assert_(st == "err" and isinstance(v, ValueError), "invalid expansions raise ValueError")
        return
    ctx.reach("good expansion")
    ctx.assert_(st == "ok", "valid expansions are accepted")
    ctx.assert_(len(v) == len(exp), "as many move groups")
    for it, (mv, times) in zip(v, exp):
        lim = 5 if times is None else times
        k = 0
        for x in it:
            ctx.assert_(x == mv, "the group's moves")
            k += 1
            if k > lim:
                break
        ctx.assert_(k == (lim + 1 if times is None else lim), "repeated as often as asked, or for ever")


def badfilter(ctx, n):
    """Texts whose filters part is arbitrary: value errors only."""
    t = "A1:" + ctx.choice("open", ("{", "[", '"')) + ctx.str("t", n, '{}[]":1')
    st, v = ctx.outcome(parse_xlref_fragment, t)
    if st == "err":
        ctx.reach("bad filter")
        ctx.assert_(isinstance(v, (ValueError, SyntaxError)), "only SyntaxError/ValueError escape")
    else:
        ctx.reach("good filter")
        cs = v["call_spec"]
        ctx.assert_(cs is None or isinstance(cs, CallSpec) and isinstance(cs.func, str), "a call or none")


def cases_x02(tier):
    out = []
    wide = tuple(c for c in range(128) if chr(c) not in '"[{')
    m = 5 if tier == "quick" else 7
    for n in range(m + 1):
        out.append(("anytext", dict(head="", n=n, alph=wide)))
    for head in ("A1", "R1C", "B2:", "A1:B2", "A1(", "A1(D", "S!R-1C_", "^_:..", "::", "A1:.1:", "R1C1(UR+)"):
        for n in range(1, m):
            out.append(("anytext", dict(head=head, n=n, alph=wide)))
    for n in range(0, 5 if tier == "quick" else 7):
        out.append(("expansions", dict(n=n, alph=tuple(range(32, 127)))))
    for n in range(0, 3 if tier == "quick" else 4):
        out.append(("badfilter", dict(n=n)))
    return out


# ---------------------------------------------------------------- X03: encasing
def encased(ctx, body, n, alph, ws):
    q = ctx.choice("q", tuple('/\\"$%&'))
    plain = body.replace("*", ctx.str("t", n, alph))
    st, exp = ctx.outcome(parse_xlref, plain)
    txt = ctx.str("w0", ws, " \n") + q + plain + q + ctx.str("w1", ws, " \t")
    st1, direct = ctx.outcome(parse_xlref, txt)
    ctx.observe(st, st1)
    if st == "err" and isinstance(exp, ValueError):
        return
    if st == "err":
        ctx.reach("not a reference")
        ctx.assert_(isinstance(exp, SyntaxError), "rejected with SyntaxError")
        ctx.assert_(st1 == "err" and isinstance(direct, SyntaxError), "encased non-references are rejected too")
        return
    ctx.assert_(st1 == "ok", "an encased reference is accepted")
    ctx.reach("encased")
    ctx.assert_(direct["xl_ref"] == txt, "the original text is recorded")
    for k in exp:
        if k != "xl_ref":
            a, b = exp[k], direct[k]
            ctx.assert_((a is None) == (b is None) and (a is None or a == b), "same components")
    ctx.assert_(not set(direct) - set(Lasso._fields), "only fields of a lasso")
    Lasso()._replace(**direct)


def cases_x03(tier):
    out = []
    for body in ("#A1", "#*", "b.xls#*:R", "#R*C1(D):..", '#A1:"f*"', '#A1:\n["f*",\n{}]', "#S*!A1::R1", "*", "b*#A1:B2"):
        for ws in (0, 1):
            for n in (1, 2) if tier == "quick" else (1, 2, 3):
                if "*" not in body and n > 1:
                    continue
                alph = "ab1" if '"' in body else "aC1_:.-"
                out.append(("encased", dict(body=body, n=n, alph=alph, ws=ws)))
    return out


# ---------------------------------------------------------------- X04: call-specs
NONE, STR, LIST, DICT, INT, ELIST, EDICT = range(7)


def mkval(ctx, name, kinds):
    k = ctx.choice(name, kinds)
    if k == NONE:
        return k, None
    if k == STR:
        return k, ctx.str(name + "s", 1, "ab")
    if k == LIST:
        return k, [ctx.str(name + "l", 1, "ab"), 1]
    if k == DICT:
        return k, {"k": ctx.str(name + "d", 1, "ab")}
    if k == ELIST:
        return k, []
    if k == EDICT:
        return k, {}
    return k, 5


ALLK = (NONE, STR, LIST, DICT, INT, ELIST, EDICT)


def spec_list(ctx, n):
    items = [mkval(ctx, "i%d" % i, ALLK) for i in range(n)]
    check_spec(ctx, [v for _, v in items], *classify_list(items))


def classify_list(items):
    """(ok, func, args, kwds) of a list spelling"""
    if not 1 <= len(items) <= 3 or items[0][0] != STR:
        return False, None, None, None
    args = kwds = None
    for k, v in items[1:]:
        if k in (LIST, ELIST):
            if args is not None:
                return False, None, None, None
            args = v
        elif k in (DICT, EDICT):
            if kwds is not None:
                return False, None, None, None
            kwds = v
        elif k != NONE:
            return False, None, None, None
    return True, items[0][1], args, kwds


def spec_dict(ctx, keys):
    d = {}
    kinds = {}
    for k in keys:
        kinds[k], d[k] = mkval(ctx, k, ALLK)
    ok = "func" in keys and kinds["func"] == STR and not set(keys) - {"func", "args", "kwds"} and \
        kinds.get("args", NONE) in (NONE, LIST, ELIST) and kinds.get("kwds", NONE) in (NONE, DICT, EDICT)
    check_spec(ctx, d, ok, d.get("func"), d.get("args"), d.get("kwds"))


def spec_scalar(ctx):
    k, v = mkval(ctx, "v", (STR, INT))
    check_spec(ctx, v, k == STR, v, None, None)


def check_spec(ctx, spec, ok, func, args, kwds):
    st, v = ctx.outcome(parse_call_spec, spec)
    ctx.observe(st)
    if not ok:
        ctx.reach("rejected")
        ctx.assert_(st == "err" and isinstance(v, ValueError), "other structures raise ValueError")
        return
    ctx.reach("accepted")
    ctx.assert_(st == "ok" and isinstance(v, CallSpec), "a valid spelling is accepted")
    ctx.assert_(v.func == func, "the function")
    ctx.assert_(v.args == ([] if args is None else args), "the positional arguments")
    ctx.assert_(v.kwds == ({} if kwds is None else kwds), "the keyword arguments")
    if kwds is not None:
        ctx.assert_(list(v.kwds) == list(kwds), "in order")
    # whatever is done to a call concerns no other
    if args is None:
        v.args.append("spoiled")
    if kwds is None:
        v.kwds["spoiled"] = 1
    again = parse_call_spec(spec)
    ctx.assert_(again.args == ([] if args is None else args) and again.kwds == ({} if kwds is None else kwds), "each call by itself")
    bare = CallSpec("g")
    ctx.assert_(bare.args == [] and bare.kwds == {}, "and the defaults remain")


JSONS = [{}, {"a": 1}, {"func": "g"}, None, [], [{}], "", "x", 0, 1, 0.0, False, True]


def opts(ctx, func):
    """The options in a filter-object are themselves an object, or null."""
    v = ctx.choice("opts", JSONS)
    js = {"opts": v}
    name = None
    if func:
        name = ctx.str("f", 1, "ab")
        js["func"] = ctx.concrete(name)
        if ctx.bool("args"):
            js["args"] = [{"opts": 1}]
    if ctx.bool("last"):
        js = dict(reversed(list(js.items())))
    txt = "A1:" + json.dumps(js)
    st, got = ctx.outcome(parse_xlref_fragment, txt)
    ctx.observe(st)
    if v is None or isinstance(v, dict):
        ctx.reach("accepted")
        ctx.assert_(st == "ok" and got["opts"] == v, "the options")
        if func:
            ctx.assert_(got["call_spec"] == CallSpec(name, js.get("args", []), {}), "and the call beside them")
        else:
            ctx.assert_(got["call_spec"] is None, "and no call")
    else:
        ctx.reach("rejected")
        ctx.assert_(st == "err" and isinstance(got, ValueError), "other options raise ValueError")


def cases_x04(tier):
    out = [("spec_scalar", {}), ("opts", dict(func=0)), ("opts", dict(func=1))]
    for n in range(0, 5 if tier == "thorough" else 4):
        out.append(("spec_list", dict(n=n)))
    for keys in ([], ["func"], ["args"], ["func", "args"], ["kwds", "func"], ["func", "args", "kwds"],
                 ["args", "kwds"], ["func", "x"], ["func", "args", "kwds", "x"], ["kwds", "args", "func"]):
        out.append(("spec_dict", dict(keys=keys)))
    return out


PROPERTIES = {
    "X01": {
        "cases": cases_x01,
        "bounds": {"quick": "columns of 1-5 letters, rows and RC-columns of 1-7 digits (negative in RC), any case, all 12 moves x 3 "
                            "modifiers on either edge, expansions of 1-3 characters, sheet names of <=2 printable "
                            "ASCII characters, 8 filters, plain or typographic quotes, 5 file parts, leading whitespace <=2",
                   "thorough": "as quick, all edge-form pairs with moves and modifiers, sheet names of <=3"},
        "outside": ["non-ASCII letters and digits"],
        "oracle": "the components the text was composed from",
        "must_reach": ["parsed", "quotes"],
        "budget": {"quick": 150, "thorough": 700},
    },
    "X02": {
        "cases": cases_x02,
        "bounds": {"quick": "every ASCII text (but the brackets and quote opening filters) of length <=5, and of length "
                            "<=4 after 11 heads; every printable ASCII expansion of length <=4 (counts below 40); filters of length <=3 over 7 characters",
                   "thorough": "texts of length <=7 (<=6 after 11 heads); expansions <=6; filters <=4"},
        "outside": ["non-ASCII text", "texts with filters beyond the bound"],
        "oracle": "a hand-written recursive-descent parser of the documented grammar (no regexes)",
        "must_reach": ["accepted", "rejected", "good expansion", "bad expansion", "bad filter", "good filter"],
        "budget": {"quick": 150, "thorough": 800},
    },
    "X03": {
        "cases": cases_x03,
        "bounds": "8 reference templates with 1-3 free characters, all 6 delimiters, surrounding whitespace <=1",
        "oracle": "the parse of the plain reference",
        "must_reach": ["encased", "not a reference"],
        "budget": {"quick": 90, "thorough": 400},
    },
    "X04": {
        "cases": cases_x04,
        "bounds": "lists of <=4 items (quick 3) and objects of <=4 keys, every item one of null/text/list/object/"
                  "number/empty list/empty object with free texts",
        "oracle": "classification of the items written as a table",
        "must_reach": ["accepted", "rejected"],
        "budget": {"quick": 60, "thorough": 300},
    },
}
