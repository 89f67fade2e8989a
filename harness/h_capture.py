"""Coordinates, targeting, capturing, expansions and margins."""
from pandalone.xleash import Coords, Edge, EmptyCaptureException, resolve_capture_rect
from pandalone.xleash import coords2Cell
from pandalone.xleash._capture import (_col2num, _expand_rect, _resolve_cell, _row2num,
                                       _target_opposite, _target_same)
from pandalone.xleash._parse import Cell
from pandalone.xleash.io.backend import ABCSheet, ArraySheet, margin_coords_from_states_matrix

LETTERS = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz"
UP = "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
MOVES1 = ("L", "U", "R", "D")
MOVES2 = ("LD", "LU", "UL", "UR", "RU", "RD", "DL", "DR")
VEC = {"L": (0, -1), "U": (-1, 0), "R": (0, 1), "D": (1, 0)}


def cells_of(m, h, w):
    return [[m[r, c] for c in range(w)] for r in range(h)]


# ---------------------------------------------------------------- reference semantics
def full(cells, r, c):
    return 0 <= r < len(cells) and 0 <= c < len(cells[0]) and cells[r][c]


def ref_margins(ctx, cells):
    """Merged: no fork per row and column."""
    h, w = len(cells), len(cells[0])
    rows = [ctx.any(cells[r]) for r in range(h)]
    cols = [ctx.any([cells[r][c] for r in range(h)]) for c in range(w)]
    up, dn = [0, 0], [0, 0]
    for k, line in enumerate((rows, cols)):
        for i in range(len(line)):
            dn[k] = ctx.ite(line[i], i, dn[k])
        for i in range(len(line) - 1, -1, -1):
            up[k] = ctx.ite(line[i], i, up[k])
    return tuple(up), tuple(dn)


def ref_opposite(cells, land, moves):
    """Walk the (unbounded) sheet from `land`; None when nothing full is on the way."""
    h, w = len(cells), len(cells[0])
    far = max(h, w, land[0], land[1]) + 2
    d1 = VEC[moves[0]]
    d2 = VEC[moves[1]] if len(moves) > 1 else None
    r, c = land
    for i in range(far if d2 else 1):
        for j in range(far):
            if full(cells, r + j * d1[0], c + j * d1[1]):
                return r + j * d1[0], c + j * d1[1]
        if d2:
            r, c = r + d2[0], c + d2[1]
    return None


def ref_same(cells, land, moves):
    r, c = land
    if not full(cells, r, c):
        return None
    out = [r, c]
    for m in moves:
        dr, dc = VEC[m]
        k = 0
        while full(cells, r + (k + 1) * dr, c + (k + 1) * dc):
            k += 1
        if dr:
            out[0] = r + k * dr
        else:
            out[1] = c + k * dc
    return tuple(out)


def ref_coord(x, up, dn, base):
    """None: an error"""
    if x == "^":
        return up
    if x == "_":
        return dn
    if x == ".":
        return base
    if x[0] == "-":
        n = dn + 1 - int(x[1:])
        return n if n >= 0 else None
    if x.isdigit():
        return int(x) - 1
    n = 0
    for ch in x:
        n = n * 26 + UP.index(ch) + 1
    return n - 1


def ref_edge(cells, e, up, dn, base, second):
    """Target of an edge: coords, 'invalid' or 'empty'."""
    row, col, mov, mod = e
    r = ref_coord(row, up[0], dn[0], base and base[0])
    c = ref_coord(col, up[1], dn[1], base and base[1])
    if r is None or c is None:
        return "invalid"
    if mov is None:
        return r, c
    if full(cells, r, c):
        if mod == "+" or second and (row, col) == (".", ".") and mod != "?":
            return ref_same(cells, (r, c), mov)
        return r, c
    return ref_opposite(cells, (r, c), mov) or "empty"


def ref_capture(ctx, cells, st, nd, base=None):
    up, dn = ref_margins(ctx, cells)
    a = ref_edge(cells, st, up, dn, base, False)
    if isinstance(a, str) or nd is None:
        return a, None
    b = ref_edge(cells, nd, up, dn, a, True)
    if isinstance(b, str):
        return b, None
    return (min(a[0], b[0]), min(a[1], b[1])), (max(a[0], b[0]), max(a[1], b[1]))


def ref_expand(cells, a, b, groups):
    """groups: [(moves, times or None)]; also returns the rects met."""
    r1, c1, r2, c2 = min(a[0], b[0]), min(a[1], b[1]), max(a[0], b[0]), max(a[1], b[1])
    for moves, times in groups:
        k = 0
        while times is None or k < times:
            k += 1
            grew = False
            for d in moves:
                if d == "L":
                    line = [(r, c1 - 1) for r in range(r1, r2 + 1)]
                elif d == "R":
                    line = [(r, c2 + 1) for r in range(r1, r2 + 1)]
                elif d == "U":
                    line = [(r1 - 1, c) for c in range(c1, c2 + 1)]
                else:
                    line = [(r2 + 1, c) for c in range(c1, c2 + 1)]
                if any([full(cells, r, c) for r, c in line]):
                    grew = True
                    if d == "L":
                        c1 -= 1
                    elif d == "R":
                        c2 += 1
                    elif d == "U":
                        r1 -= 1
                    else:
                        r2 += 1
            if not grew:
                break
    return (r1, c1), (r2, c2)


# ---------------------------------------------------------------- X05
def col_letters(ctx, n):
    t = ctx.str("col", n, LETTERS)
    v = _col2num(t)
    ctx.observe(v)
    exp = 0
    for c in t:
        exp = exp * 26 + (ord(c.upper()) - 64)
    ctx.assert_(v == exp - 1, "column letters are 1-based base-26")
    back = coords2Cell(0, v)
    ctx.assert_(back.col == t.upper(), "and convert back")
    ctx.assert_(back.row == "1", "first row")
    ctx.reach("letters")


def col_number(ctx, lo, hi):
    """From numbers to letters: least length, unique."""
    n = ctx.int("col", lo, hi)
    r = ctx.int("row", 0, 2000000)
    cell = coords2Cell(r, n)
    ctx.assert_(_col2num(cell.col) == n, "number -> letters -> number")
    ctx.assert_(_row2num(cell.row) == r, "row -> text -> row")
    ctx.observe(cell.col)
    ctx.reach("numbers")


def numeric(ctx, n, neg):
    """Rows and numeric columns."""
    t = ctx.str("d", n, "0123456789")
    txt = ("-" if neg else "") + t
    val = 0
    for c in t:
        val = val * 10 + (ord(c) - 48)
    for f in (_row2num, _col2num):
        for x in (txt, -val if neg else val):
            st, v = ctx.outcome(f, x)
            if val == 0:
                ctx.assert_(st == "err" and isinstance(v, ValueError), "zero is rejected")
            else:
                ctx.assert_(st == "ok" and v == (-val if neg else val - 1), "1-based, negatives kept")
    ctx.reach("zero" if val == 0 else "number")


def resolve(ctx, row, col, base):
    up = ctx.int("upr", 0, 30), ctx.int("upc", 0, 30)
    dn = ctx.int("dnr", 0, 60), ctx.int("dnc", 0, 60)
    ctx.assume(up[0] <= dn[0])
    ctx.assume(up[1] <= dn[1])
    b = (ctx.int("br", 0, 60), ctx.int("bc", 0, 60)) if base else None

    def part(name, kind):
        if kind in ("num", "neg"):
            t = ctx.str(name, 1, "123456789") + ctx.strs(name + "2", (0, 1), "0123456789")
            k = 0
            for ch in t:
                k = k * 10 + (ord(ch) - 48)
            if kind == "num":
                return t, lambda u, d, s: k - 1
            return "-" + t, lambda u, d, s: d - k + 1
        if kind == "let":
            t = ctx.str(name, 1, UP) + ctx.str(name + "2", 1, UP)
            return t, lambda u, d, s: (ord(t[0]) - 64) * 26 + ord(t[1]) - 65
        return kind, lambda u, d, s: {"^": u, "_": d, ".": s}[kind]

    row, fr = part("row", row)
    col, fc = part("col", col)
    st, v = ctx.outcome(_resolve_cell, Cell(row, col), Coords(*up), Coords(*dn), b and Coords(*b))
    if not base and "." in (row, col):
        ctx.assert_(st == "err" and isinstance(v, ValueError), "a dependent coord needs a base")
        ctx.reach("no base")
        return
    er, ec = fr(up[0], dn[0], b and b[0]), fc(up[1], dn[1], b and b[1])
    if er < 0 or ec < 0:
        ctx.assert_(st == "err" and isinstance(v, ValueError), "before the start of the sheet: rejected")
        ctx.reach("before")
        return
    ctx.assert_(st == "ok", "resolves")
    ctx.observe(v)
    ctx.assert_(v.row == er and v.col == ec, "row and column by their notation")
    ctx.reach("resolved")


def foreign(ctx, n):
    """Foreign symbols are rejected."""
    t = ctx.str("t", n, tuple(range(33, 127)))
    st, v = ctx.outcome(_resolve_cell, Cell("1", t), Coords(0, 0), Coords(9, 9), None)
    if n == 1 and t in ("^", "_"):
        ok = True
    else:
        body = t[1:] if t[0] in ("-", "+") else t
        num = len(body) > 0 and all([c in "0123456789_" for c in body])
        if num:
            num = body[0] != "_" and body[-1] != "_" and "__" not in body
        if num:
            val = 0
            for c in body:
                val = val * 10 + (ord(c) - 48) if c != "_" else val
            ok = (val > 0 and (t[0] != "-" or val <= 10))
        else:
            ok = all([c.isalpha() for c in t])
    ctx.assert_((st == "ok") if ok else (st == "err" and isinstance(v, ValueError)),
                "letters or non-zero numbers only")
    ctx.reach("ok" if ok else "rejected")


def cases_x05(tier):
    th = tier == "thorough"
    out = [("col_letters", dict(n=n)) for n in range(1, 6 if th else 5)]
    out += [("col_number", dict(lo=lo, hi=hi)) for lo, hi in ((0, 25), (26, 701), (702, 18277))]
    out += [("numeric", dict(n=n, neg=g)) for n in range(1, 7 if th else 5) for g in (0, 1)]
    for r in ("num", "neg", "^", "_", "."):
        for c in ("num", "neg", "let", "^", "_", "."):
            for b in (0, 1):
                out.append(("resolve", dict(row=r, col=c, base=b)))
    out += [("foreign", dict(n=n)) for n in range(1, 4 if th else 3)]
    return out


# ---------------------------------------------------------------- X06 / X07
def check_target(ctx, st, v, exp, moves, cells):
    if exp is None:
        ctx.reach("none")
        ctx.assert_(st == "err" and isinstance(v, EmptyCaptureException), "nothing there: empty capture")
    else:
        ctx.reach("found")
        ctx.assert_(st == "ok", "a target exists")
        ctx.assert_(isinstance(v, Coords) and v[0] == exp[0] and v[1] == exp[1], "the documented target")
        ctx.observe(v)


def landings(ctx, h, w):
    return Coords(ctx.choice("row", range(h + 2)), ctx.choice("col", range(w + 2)))


def opposite(ctx, h, w, moves):
    m = ctx.boolmatrix("m", h, w)
    cells = cells_of(m, h, w)
    land = landings(ctx, h, w)
    if full(cells, land.row, land.col):
        ctx.assume(False)
    dn = Coords(*ref_margins(ctx, cells)[1])
    st, v = ctx.outcome(_target_opposite, m, dn, land, moves)
    exp = ref_opposite(cells, land, moves)
    check_target(ctx, st, v, exp, moves, cells)


def same(ctx, h, w, moves):
    m = ctx.boolmatrix("m", h, w)
    cells = cells_of(m, h, w)
    land = landings(ctx, h, w)
    dn = Coords(*ref_margins(ctx, cells)[1])
    st, v = ctx.outcome(_target_same, m, dn, land, moves)
    exp = ref_same(cells, land, moves)
    check_target(ctx, st, v, exp, moves, cells)


def line(ctx, opp, h, w, n, moves, far):
    """Long rows and columns: full or empty cells anywhere among the last (or first) n."""
    tall = h >= w
    m = ctx.boolmatrix("m", n if tall else h, w if tall else n)
    at = (h - n if tall else w - n) if far else 0
    big = ctx.padded(m, h, w, at if tall else 0, 0 if tall else at)
    cells = cells_of(m, n if tall else h, w if tall else n)
    off = (at, 0) if tall else (0, at)
    k = ctx.choice("k", range(n))
    other = ctx.choice("o", range(w if tall else h))
    land = Coords(at + k, other) if tall else Coords(other, at + k)
    if opp and full(cells, land[0] - off[0], land[1] - off[1]):
        ctx.assume(False)
    dn = Coords(h - 1, w - 1)
    st, v = ctx.outcome(_target_opposite if opp else _target_same, big, dn, land, moves)
    exp = (ref_opposite if opp else ref_same)(cells, (land[0] - off[0], land[1] - off[1]), moves)
    check_target(ctx, st, v, exp and (exp[0] + off[0], exp[1] + off[1]), moves, cells)


def sizes(tier, quick, thorough):
    return quick if tier == "quick" else thorough


def cases_x06(tier):
    return [("opposite", dict(h=h, w=w, moves=mv)) for mv in MOVES1 + MOVES2
            for h, w in sizes(tier, ((1, 1), (2, 3), (3, 2), (3, 4)), ((1, 5), (3, 4), (4, 4), (5, 4), (4, 6)))
            ] + lines(1)


def cases_x07(tier):
    return [("same", dict(h=h, w=w, moves=mv)) for mv in MOVES1 + MOVES2
            for h, w in sizes(tier, ((1, 1), (1, 5), (5, 1), (3, 4)), ((4, 4), (5, 5), (6, 4)))] + lines(0)


def lines(opp):
    return [("line", dict(opp=opp, h=h, w=w, n=n, moves=mv, far=far)) for h, w, n, far in (
        (20, 1, 20, 0), (1, 20, 20, 0), (70000, 2, 3, 1), (2, 17000, 3, 1)) for mv in (
        MOVES1 if not far else ("U", "D", "DL") if h > w else ("L", "R", "UR"))]


# ---------------------------------------------------------------- X08
def mkedge(e):
    return None if e is None else Edge(Cell(e[0], e[1]), e[2], e[3])


def capture(ctx, h, w, st, nd, stm, ndm, stmods=(None, "+", "?"), ndmods=(None, "+", "?"), base=None):
    m = ctx.boolmatrix("m", h, w)
    cells = cells_of(m, h, w)
    sm = ctx.choice("stmov", stm)
    sd = ctx.choice("stmod", stmods) if sm else None
    st = tuple(st) + (sm, sd)
    if nd is not None:
        nm = ctx.choice("ndmov", ndm)
        nd = tuple(nd) + (nm, ctx.choice("ndmod", ndmods) if nm else None)
    margins = margin_coords_from_states_matrix(m)
    got, v = ctx.outcome(resolve_capture_rect, m, margins, mkedge(st), mkedge(nd), None,
                         base and Coords(*base))
    ea, eb = ref_capture(ctx, cells, st, nd, base)
    if isinstance(ea, str):
        ctx.reach(ea)
        ctx.assert_(got == "err" and isinstance(v, EmptyCaptureException if ea == "empty" else ValueError),
                    "the documented failure")
        return
    ctx.assert_(got == "ok", "captures")
    ctx.reach("captured")
    ctx.observe(v)
    a, b = v
    ctx.assert_(isinstance(a, Coords) and a[0] == ea[0] and a[1] == ea[1], "top-left")
    if eb is None:
        ctx.assert_(b is None, "no 2nd edge")
    else:
        ctx.assert_(isinstance(b, Coords) and b[0] == eb[0] and b[1] == eb[1], "bottom-right")
        ctx.assert_(a[0] <= b[0] and a[1] <= b[1], "ordered")


def far_capture(ctx, at, st, sm, nd, nm):
    """On a sheet of many rows, the last of which are unknown."""
    m = ctx.boolmatrix("m", 3, 2)
    big = ctx.padded(m, at + 3, 2, at, 0)
    cells = cells_of(m, 3, 2)
    if not ctx.any([x for row in cells for x in row]):
        ctx.assume(False)
    up, dn = ref_margins(ctx, cells)
    st = tuple(st) + (ctx.choice("stmov", sm), ctx.choice("stmod", (None, "+")))
    nd = tuple(nd) + (ctx.choice("ndmov", nm), ctx.choice("ndmod", (None, "+")))
    got, v = ctx.outcome(resolve_capture_rect, big, margin_coords_from_states_matrix(big), mkedge(st), mkedge(nd), None, None)

    def target(e, base, second):
        """With rows counted from the first unknown one; a walk through the empty ones above starts right above them."""
        row, col, mov, mod = e
        r = ref_coord(row, up[0] + at, dn[0] + at, base and base[0] + at) - at
        c = ref_coord(col, up[1], dn[1], base and base[1])
        if c is None:
            return "invalid"
        if mov is None:
            return r, c
        if full(cells, r, c):
            if mod == "+" or second and (row, col) == (".", "."):
                return ref_same(cells, (r, c), mov)
            return r, c
        return ref_opposite(cells, (max(r, -1), c), mov) or "empty"

    a = target(st, None, False)
    b = a if isinstance(a, str) else target(nd, a, True)
    if isinstance(b, str):
        ctx.reach(b)
        ctx.assert_(got == "err" and isinstance(v, EmptyCaptureException if b == "empty" else ValueError), "the documented failure")
        return
    ctx.assert_(got == "ok", "captures")
    ctx.observe(v)
    (r1, c1), (r2, c2) = v
    r1, r2 = r1 - at, r2 - at
    ctx.assert_((r1, c1) == (min(a[0], b[0]), min(a[1], b[1])) and (r2, c2) == (max(a[0], b[0]), max(a[1], b[1])), "the corners")


def cases_x08(tier):
    th = tier == "thorough"
    out = []
    h, w = (3, 4) if th else (3, 3)
    some = (None, "D", "R", "UL", "DR", "RD", "LU")
    few = (None, "DR", "UR", "L")
    allm = (None,) + MOVES1 + MOVES2
    sts = [("1", "A"), ("2", "B"), ("_", "_"), ("^", "^"), ("5", "B"), ("^", "_"), ("2", "E"), ("-1", "2"),
           ("-2", "-3"), ("1", "-9")]
    nds = [(".", "."), ("_", "_"), ("1", "A"), (".", "_"), ("2", "5"), ("^", "."), ("-1", "-2"), ("-7", "1")]
    for s in sts:
        out.append(("capture", dict(h=h, w=w, st=s, nd=None, stm=allm, ndm=None)))
        for i, n in enumerate(nds):
            if th:
                out.append(("capture", dict(h=h, w=w, st=s, nd=n, stm=allm, ndm=allm)))
            else:
                rich = s in (("1", "A"), ("2", "B")) and i < 2
                out.append(("capture", dict(h=h if rich else 2, w=w, st=s, nd=n, stm=(None, "DR") if not rich else some,
                                            ndm=few, stmods=(None, "+"), ndmods=(None, "+", "?"))))
    for b in ((0, 0), (1, 2), (4, 1)):
        for s in ((".", "."), (".", "A"), ("_", ".")):
            out.append(("capture", dict(h=h, w=w, st=s, nd=(".", "."), stm=(None, "DR", "UL"), ndm=(None, "RD"),
                                        base=b)))
    out.append(("capture", dict(h=h, w=w, st=(".", "1"), nd=None, stm=(None, "D"), ndm=None)))
    for at, st, sm, nd, nm in ((398, ("400", "A"), (None, "U", "DR"), ("_", "_"), (None,)), (398, ("1", "B"), ("D", "LD"), (".", "."), ("D", "DR")),
                               (398, ("^", "^"), ("D",), ("401", "."), ("U", "L")), (398, ("-1", "-2"), (None, "UR"), ("1", "A"), ("D", None)),
                               (69998, ("^", "B"), (None,), ("70001", "."), ("U",))):
        out.append(("far_capture", dict(at=at, st=st, sm=sm, nd=nd, nm=nm)))
    return out


# ---------------------------------------------------------------- X09
def groups_of(t):
    """Reference reading of a valid expansion text."""
    t = t.upper()
    out = []
    run = ""
    i = 0
    while i < len(t):
        if t[i] in "LURD":
            j = i + 1
            num = ""
            while j < len(t) and t[j] in "?123456789":
                num = num + ("1" if t[j] == "?" else t[j])
                j += 1
            if num:
                if run:
                    out.append((run, None))
                    run = ""
                out.append((t[i], int(num)))
            else:
                run = run + t[i]
            i = j
        else:
            return None
    if run:
        out.append((run, None))
    return out


def expand(ctx, h, w, exps, n=0):
    m = ctx.boolmatrix("m", h, w)
    cells = cells_of(m, h, w)
    t = ctx.choice("exp", exps) if exps else ctx.str("exp", n, "LURDd12?")
    g = groups_of(t)
    if g is None:
        ctx.assume(False)
    t = ctx.concrete(t)
    a = Coords(ctx.choice("r1", range(h + 1)), ctx.choice("c1", range(w + 1)))
    b = Coords(ctx.choice("r2", range(h + 1)), ctx.choice("c2", range(w + 1)))
    v = _expand_rect(m, a, b, t)
    ea, eb = ref_expand(cells, a, b, [(str(x), y) for x, y in g])
    ctx.observe(v)
    (r1, c1), (r2, c2) = v
    ctx.assert_((r1, c1) == ea and (r2, c2) == eb, "the documented expansion")
    ctx.assert_(r1 <= min(a[0], b[0]) and c1 <= min(a[1], b[1]) and r2 >= max(a[0], b[0]) and c2 >= max(a[1], b[1]),
                "contains the original rectangle")
    ctx.reach("grown" if (ea, eb) != ((min(a[0], b[0]), min(a[1], b[1])), (max(a[0], b[0]), max(a[1], b[1])))
              else "unchanged")


def expand_capture(ctx, h, w, exp):
    """The expansion applied by the capturing, from any edges."""
    m = ctx.boolmatrix("m", h, w)
    cells = cells_of(m, h, w)
    st = ctx.choice("st", (("1", "A", None, None), ("1", "A", "DR", None), ("_", "_", None, None)))
    nd = ctx.choice("nd", (None, (".", ".", "DR", None), ("1", "B", None, None)))
    got, v = ctx.outcome(resolve_capture_rect, m, margin_coords_from_states_matrix(m), mkedge(st), mkedge(nd), exp)
    ea, eb = ref_capture(ctx, cells, st, nd)
    if isinstance(ea, str):
        ctx.assert_(got == "err" and isinstance(v, EmptyCaptureException), "the documented failure")
        return
    ctx.assert_(got == "ok", "captures")
    ctx.observe(v)
    ctx.assert_(tuple(map(tuple, v)) == ref_expand(cells, ea, eb or ea, groups_of(exp)), "the documented expansion")


def expand_line(ctx, n, tall, far, exp):
    """Along long rows and columns."""
    m = ctx.boolmatrix("m", n if tall else 1, 1 if tall else n)
    cells = cells_of(m, n if tall else 1, 1 if tall else n)
    at = 70000 if far and tall else 17000 if far else 0
    big = ctx.padded(m, n + at if tall else 1, 1 if tall else n + at, at if tall else 0, 0 if tall else at)
    k = ctx.choice("k", (0, n // 2, n - 1))
    a = (k, 0) if tall else (0, k)
    off = (at, 0) if tall else (0, at)
    land = Coords(a[0] + off[0], a[1] + off[1])
    v = _expand_rect(big, land, land, exp)
    ea, eb = ref_expand(cells, a, a, groups_of(exp))
    ctx.observe(v)
    ctx.assert_([tuple(x) for x in v] == [(x[0] + off[0], x[1] + off[1]) for x in (ea, eb)], "the documented expansion")


def cases_x09(tier):
    th = tier == "thorough"
    out = []
    exps = ("L", "U", "R", "D", "LURD", "RD", "DR", "UL1", "L1U2R1D1", "R2", "D?", "RDL1U1", "LU", "r", "DRL1", "R12", "L11U?")
    for h, w in (((2, 2), (1, 3), (3, 2)) if not th else ((3, 3), (2, 4), (4, 3))):
        for e in exps:
            out.append(("expand", dict(h=h, w=w, exps=[e])))
    for n in (1, 2) if not th else (1, 2, 3):
        out.append(("expand", dict(h=2, w=2, exps=None, n=n)))
    for e in exps:
        out.append(("expand_capture", dict(h=3, w=3 if not th else 4, exp=e)))
    for tall, es in ((1, ("D", "U", "UD", "D12", "U3D11", "DU?")), (0, ("R", "L", "RL", "R12", "L11R3", "LR?"))):
        out += [("expand_line", dict(n=24, tall=tall, far=0, exp=e)) for e in es]
        out += [("expand_line", dict(n=3, tall=tall, far=1, exp=e)) for e in es[:4]]
    return out


# ---------------------------------------------------------------- X10
class StatesSheet(ABCSheet):
    def __init__(self, m):
        self.m = m
        self.reads = 0

    def _read_states_matrix(self):
        self.reads += 1
        return self.m

    def get_sheet_ids(self):
        return None

    def open_sibling_sheet(self, sheet_id):
        pass

    def list_sheetnames(self):
        pass

    def read_rect(self, st, nd):
        pass


def margins(ctx, h, w):
    m = ctx.boolmatrix("m", h, w)
    cells = cells_of(m, h, w)
    (ur, uc), (dr, dc) = margin_coords_from_states_matrix(m)
    ctx.observe(ur, uc, dr, dc)
    some = ctx.any([c for row in cells for c in row])
    # the box holds every full cell, and each side of it touches one
    inside = ctx.all([ctx.any([ctx.eq(c, False), ctx.all([ur <= r, r <= dr, uc <= k, k <= dc])])
                      for r, row in enumerate(cells) for k, c in enumerate(row)])
    tight = ctx.all([ctx.any([ctx.all([c, f(r, k)]) for r, row in enumerate(cells) for k, c in enumerate(row)])
                     for f in (lambda r, k: ctx.eq(ur, r), lambda r, k: ctx.eq(dr, r),
                               lambda r, k: ctx.eq(uc, k), lambda r, k: ctx.eq(dc, k))])
    if some:
        ctx.reach("cells")
        ctx.assert_(inside, "every full cell is inside the margins")
        ctx.assert_(tight, "every margin touches a full cell")
    else:
        ctx.reach("empty")
        ctx.assert_(ctx.all([ctx.eq(x, 0) for x in (ur, uc, dr, dc)]), "an empty sheet has zero margins")


def far_margins(ctx, h, w, r, c):
    """Of a big sheet with few full cells."""
    m = ctx.boolmatrix("m", 2, 2)
    cells = cells_of(m, 2, 2)
    up, dn = margin_coords_from_states_matrix(ctx.padded(m, h, w, r, c))
    ctx.observe(up, dn)
    if ctx.any([x for row in cells for x in row]):
        eu, ed = ref_margins(ctx, cells)
        ctx.assert_(tuple(up) == (eu[0] + r, eu[1] + c) and tuple(dn) == (ed[0] + r, ed[1] + c), "the box of those cells")
    else:
        ctx.assert_(tuple(up) == (0, 0) and tuple(dn) == (0, 0), "an empty sheet has zero margins")


class LimitsSheet(StatesSheet):
    """A sheet that knows some of its margins."""

    def _read_margin_coords(self):
        return self.limits


def reported_margins(ctx, h, w):
    """Margins that a sheet reports are used as they are; the others are computed."""
    m = ctx.boolmatrix("m", h, w)
    cells = cells_of(m, h, w)
    sh = LimitsSheet(m)
    up = Coords(ctx.int("ur", 0, 3), ctx.int("uc", 0, 3)) if ctx.bool("up") else None
    dn = Coords(ctx.int("dr", 0, 9), ctx.int("dc", 0, 9)) if ctx.bool("dn") else None
    sh.limits = (up, dn)
    exp = ref_margins(ctx, cells)
    for _ in range(2):
        gu, gd = sh.get_margin_coords()
        ctx.assert_(tuple(gu) == (exp[0] if up is None else tuple(up)), "the top-left")
        ctx.assert_(tuple(gd) == (exp[1] if dn is None else tuple(dn)), "the bottom-right")
    ctx.reach("reported")


def sheet_margins(ctx, h, w):
    m = ctx.boolmatrix("m", h, w)
    cells = cells_of(m, h, w)
    sh = StatesSheet(m)
    order = ctx.choice("order", ("states", "margins"))
    if order == "states":
        ctx.assert_(sh.get_states_matrix() is m, "the states")
    a = sh.get_margin_coords()
    exp = ref_margins(ctx, cells)
    for _ in range(2):
        up, dn = sh.get_margin_coords()
        ctx.assert_(tuple(up) == exp[0] and tuple(dn) == exp[1], "same margins each time")
        ctx.assert_(sh.get_states_matrix() is m, "same states each time")
    ctx.assert_(sh.reads == 1, "the states are read once")
    ctx.assert_(ctx.eq(cells_of(m, h, w), cells), "the states are not changed")


def array_sheet(ctx, h, w):
    """The states of a sheet of values: everything but None is full."""
    vals = (None, 0, "", 1.5)
    arr = [[ctx.choice("v%d.%d" % (r, c), vals) for c in range(w)] for r in range(h)]
    sh = ArraySheet(arr)
    sm = sh.get_states_matrix()
    cells = [[x is not None for x in row] for row in arr]
    ctx.assert_([[bool(sm[r, c]) for c in range(w)] for r in range(h)] == cells, "only None is empty")
    up, dn = sh.get_margin_coords()
    ctx.assert_((tuple(up), tuple(dn)) == ref_margins(ctx, cells), "margins of a sheet of values")
    ctx.reach("values")


def cases_x10(tier):
    th = tier == "thorough"
    out = [("margins", dict(h=h, w=w)) for h in range(1, 6 if th else 5) for w in range(1, 7 if th else 6)]
    out += [("sheet_margins", dict(h=h, w=w)) for h, w in ((1, 1), (2, 3), (3, 3)) + (((4, 4),) if th else ())]
    out += [("far_margins", dict(h=h, w=w, r=r, c=c)) for h, w, r, c in ((70000, 2, 69998, 0), (2, 17000, 0, 16998), (300, 300, 297, 150))]
    out += [("reported_margins", dict(h=2, w=2))]
    out += [("array_sheet", dict(h=h, w=w)) for h, w in ((1, 1), (1, 3), (2, 2)) + (((2, 3),) if th else ())]
    return out


PROPERTIES = {
    "X05": {
        "cases": cases_x05,
        "bounds": {"quick": "columns of <=4 letters (any case), numbers of <=4 digits of either sign, columns up to "
                            "ZZZ and rows up to 2e6 back to text, margins <=60, base <=60, foreign texts of <=2",
                   "thorough": "columns of <=5 letters, numbers of <=6 digits, foreign texts of <=3"},
        "outside": ["non-ASCII letters and digits"],
        "oracle": "base-26/base-10 arithmetic over the characters",
        "must_reach": ["letters", "numbers", "zero", "number", "no base", "before", "resolved", "ok", "rejected"],
        "budget": {"quick": 150, "thorough": 700},
    },
    "X06": {
        "cases": cases_x06,
        "bounds": {"quick": "every full/empty pattern of sheets up to 3x4, all 12 moves, landings up to 2 beyond the sheet",
                   "thorough": "sheets up to 5x4 and 4x6"},
        "oracle": "a walk over the unbounded sheet, cell by cell, with no clamping",
        "must_reach": ["none", "found"],
        "budget": {"quick": 150, "thorough": 800},
    },
    "X07": {
        "cases": cases_x07,
        "bounds": {"quick": "every full/empty pattern of sheets up to 3x4, 1x5, 5x1, all 12 moves, landings up to 2 "
                            "beyond the sheet", "thorough": "sheets up to 5x5 and 6x4"},
        "oracle": "a walk from the landing along each axis, cell by cell",
        "must_reach": ["none", "found"],
        "budget": {"quick": 120, "thorough": 800},
    },
    "X08": {
        "cases": cases_x08,
        "bounds": {"quick": "every pattern of a 3x3 sheet (2x3 for most pairs of landings); 10 first and 8 second landings (in, on and beyond the "
                            "margins, from the end, dependent), moves and modifiers (all on the first edge alone)",
                   "thorough": "every pattern of a 3x4 sheet, all moves and modifiers on both edges"},
        "oracle": "a second implementation of the documented enactment rules over the walks of X06/X07",
        "must_reach": ["captured", "empty", "invalid"],
        "budget": {"quick": 200, "thorough": 850},
    },
    "X09": {
        "cases": cases_x09,
        "bounds": {"quick": "every pattern of sheets up to 3x2 (3x3 through capturing), rectangles inside and one "
                            "beyond the sheet, 15 expansion texts and all of length <=2",
                   "thorough": "sheets up to 4x3, all texts of length <=3"},
        "oracle": "line-by-line growth over the cells",
        "must_reach": ["grown", "unchanged"],
        "budget": {"quick": 200, "thorough": 850},
    },
    "X10": {
        "cases": cases_x10,
        "bounds": {"quick": "every pattern of every sheet up to 4x5", "thorough": "every sheet up to 5x6"},
        "oracle": "the two defining conditions of a bounding box, as formulas",
        "must_reach": ["cells", "empty", "values"],
        "budget": {"quick": 60, "thorough": 300},
    },
}
