"""Reading sheets: back-ends, rectangles, cell values, dimensions, the sheets' cache."""
import datetime
import math

import xlrd
from pandalone.xleash import ArraySheet, Coords, EmptyCaptureException, Lasso, Ranger, SheetsFactory
from pandalone.xleash._filter import _redim, redim_filter, xlwings_dims_call_spec
from pandalone.xleash.io import _xlrd as xd
from harness.h_utils import Patched
from pandalone.xleash.io import backend
from pandalone.xleash.io.backend import ABCBackend, ABCSheet, SheetId, SimpleSheetsFactory

EMPTY, TEXT, NUMBER, DATE, BOOL, ERROR, BLANK = range(7)


# ---------------------------------------------------------------- X11
def rect_of(ctx, h, w):
    st = Coords(ctx.int("r1", 0, h + 1), ctx.int("c1", 0, w + 1))
    nd = Coords(ctx.int("r2", 0, h + 1), ctx.int("c2", 0, w + 1))
    ctx.assume(st[0] <= nd[0])
    ctx.assume(st[1] <= nd[1])
    return st, nd


def same(a, b):
    return a is b or type(a) is type(b) and a == b


def array_values(ctx, h, w):
    """Cells that are symbolic integers, texts and empty, mixed."""
    return [[(None if (r * w + c) % 4 == 3 else ctx.str("t%d.%d" % (r, c), 1) if (r * w + c) % 4 == 1 else
              ctx.int("n%d.%d" % (r, c), -9, 9)) for c in range(w)] for r in range(h)]


def array_rect(ctx, h, w):
    vals = array_values(ctx, h, w)
    sh = ArraySheet([list(x) for x in vals])
    st, nd = rect_of(ctx, h, w)
    first = sh.read_rect(st, nd)
    for got in (first, sh.read_rect(st, nd)):
        ctx.observe(got)
        ctx.assert_(isinstance(got, list) and all([isinstance(x, list) for x in got]), "a table")
        exp = [[vals[r][c] for c in range(w) if st[1] <= c <= nd[1]] for r in range(h) if st[0] <= r <= nd[0]]
        ctx.assert_(ctx.eq(got, exp), "exactly the cells of the rectangle, in row-major order")
        for x, y in zip(got, exp):
            ctx.assert_(all([type(p) is type(q) for p, q in zip(x, y)]), "each of its own type")
        for row in got:  # the caller owns what it got
            row.clear()
    ctx.reach("inside" if nd[0] < h and nd[1] < w else "outside" if st[0] >= h or st[1] >= w else "straddling")


def array_cell(ctx, h, w):
    vals = array_values(ctx, h, w)
    sh = ArraySheet([list(x) for x in vals])
    st = Coords(ctx.int("r1", 0, h + 1), ctx.int("c1", 0, w + 1))
    k, v = ctx.outcome(sh.read_rect, st, None)
    if st[0] < h and st[1] < w:
        ctx.reach("cell")
        e = vals[st[0]][st[1]]
        ctx.assert_(k == "ok" and type(v) is type(e) and ctx.eq(v, e), "the value of the cell")
    else:
        ctx.reach("beyond")
        ctx.assert_(k == "err", "beyond the sheet: an error")


class Book(xlrd.book.Book):
    """A workbook in memory, served by the real xlrd accessors."""


def book_of(sheets, datemode=0):
    """sheets: [(name, rows of (ctype, value))]"""
    b = Book()
    b._sheet_names = [n for n, _ in sheets]
    b._sheet_list = []
    b.nsheets = len(sheets)
    b.datemode = datemode
    for i, (n, rows) in enumerate(sheets):
        s = object.__new__(xlrd.sheet.Sheet)
        s.book = b
        s.name = n
        s.number = i
        s.formatting_info = 0
        s._cell_types = [[t for t, _ in row] for row in rows]
        s._cell_values = [[v for _, v in row] for row in rows]
        s.nrows = len(rows)
        s.ncols = len(rows[0]) if rows else 0
        b._sheet_list.append(s)
    return b


def xl_value(ctx, t, v):
    """What the type of a cell says (numbers here are whole)."""
    if t == EMPTY or t == BLANK:
        return None
    if t == BOOL:
        return not ctx.eq(v, 0)
    return v


def xl_rect(ctx, h, w, types):
    ty = [[ctx.choice("y%d.%d" % (r, c), types) for c in range(w)] for r in range(h)]
    va = [[ctx.int("v%d.%d" % (r, c), 0, 5) for c in range(w)] for r in range(h)]
    b = book_of([("a", [[(NUMBER, 77)]]), ("s", [list(zip(p, q)) for p, q in zip(ty, va)])])
    sh = xd.XlrdSheet(b._sheet_list[1], "wb")
    st, nd = rect_of(ctx, h, w)
    for _ in range(2):
        got = sh.read_rect(st, nd)
        ctx.observe(got)
        ctx.assert_(isinstance(got, list) and len(got) == nd[0] - st[0] + 1, "as many rows as asked")
        for i, row in enumerate(got):
            ctx.assert_(isinstance(row, list) and len(row) == nd[1] - st[1] + 1, "as many columns as asked")
            for j, x in enumerate(row):
                r, c = st[0] + i, st[1] + j
                if r < h and c < w:
                    if ty[r][c] == ERROR:
                        ctx.assert_(isinstance(x, float) and x != x, "an error cell")
                        continue
                    e = xl_value(ctx, ty[r][c], va[r][c])
                    ctx.assert_(type(x) is type(e) and ctx.eq(x, e), "the value of the cell in that position")
                else:
                    ctx.assert_(x is None, "blank outside the sheet")
    ctx.assert_([list(x) for x in b._sheet_list[1]._cell_types] == ty, "the sheet is not modified")
    ctx.assert_(ctx.eq(b._sheet_list[1]._cell_values, va), "the sheet is not modified")
    ctx.reach("inside" if nd[0] < h and nd[1] < w else "outside" if st[0] >= h or st[1] >= w else "straddling")


def xl_cell(ctx, h, w):
    ty = [[(NUMBER, TEXT, EMPTY, BOOL, BLANK, NUMBER)[(r * w + c) % 6] for c in range(w)] for r in range(h)]
    va = [[ctx.int("v%d.%d" % (r, c), 0, 5) for c in range(w)] for r in range(h)]
    b = book_of([("s", [list(zip(p, q)) for p, q in zip(ty, va)])])
    sh = xd.XlrdSheet(b._sheet_list[0], "wb")
    st = Coords(ctx.int("r1", 0, h + 1), ctx.int("c1", 0, w + 1))
    k, v = ctx.outcome(sh.read_rect, st, None)
    if st[0] < h and st[1] < w:
        e = xl_value(ctx, ty[st[0]][st[1]], va[st[0]][st[1]])
        ctx.reach("cell")
        ctx.assert_(k == "ok" and type(v) is type(e) and ctx.eq(v, e), "the value of the cell")
    else:
        ctx.reach("beyond")
        ctx.assert_(k == "err", "beyond the sheet: an error")


def xl_states(ctx, h, w):
    """The states of a workbook sheet: all but empty and blank cells are full."""
    ty = [[ctx.choice("y%d.%d" % (r, c), range(7)) for c in range(w)] for r in range(h)]
    b = book_of([("s", [[(t, 1) for t in x] for x in ty])])
    sh = xd.XlrdSheet(b._sheet_list[0], "wb")
    m = sh.get_states_matrix()
    ctx.assert_([[bool(m[r, c]) for c in range(w)] for r in range(h)] ==
                [[t != EMPTY and t != BLANK for t in x] for x in ty], "full cells")
    up, dn = sh.get_margin_coords()
    full = [(r, c) for r in range(h) for c in range(w) if ty[r][c] not in (EMPTY, BLANK)]
    eu = (min([r for r, _ in full]), min([c for _, c in full])) if full else (0, 0)
    ctx.assert_(tuple(up) == eu, "top-left margin")
    ctx.assert_(tuple(dn) == (h - 1, w - 1), "bottom-right margin: the sheet's extent")
    ctx.reach("states")


def void(ctx, kind):
    """Sheets without any cell have nothing to read."""
    if kind == "workbook":
        sh = xd.XlrdSheet(book_of([("s", [])])._sheet_list[0], "wb")
    else:
        sh = ArraySheet([] if kind == "array" else [[]] * ctx.choice("rows", [1, 2]))
    no_empty = ctx.bool("no_empty")
    ref = "#" + ctx.choice("ref", [":", "^^", "%s%s:__" % (ctx.str("c", 1, "AB^_"), ctx.str("r", 1, "12^_")), "A1(RD)", "A1:..(RD):LURD"])
    r = Ranger(SheetsFactory(), {"no_empty": no_empty}, {})
    for _ in range(2):
        st, got = ctx.outcome(r.do_lasso, ref, sheet=sh)
        if no_empty:
            ctx.assert_(st == "err" and isinstance(got, EmptyCaptureException), "an empty capture, as asked")
        else:
            ctx.assert_(st == "ok" and got.values == [] and got.st is None and got.nd is None, "nothing")
    ctx.reach("void")


def cases_x11(tier):
    th = tier == "thorough"
    out = [("array_rect", dict(h=h, w=w)) for h, w in ((1, 1), (2, 3), (3, 2)) + (((4, 4), (3, 5)) if th else ())]
    out += [("array_cell", dict(h=h, w=w)) for h, w in ((1, 1), (3, 3)) + (((5, 4),) if th else ())]
    kinds = (EMPTY, TEXT, NUMBER, BOOL, ERROR, BLANK)
    out += [("xl_rect", dict(h=1, w=2, types=kinds)), ("xl_rect", dict(h=2, w=2, types=(EMPTY, NUMBER, BLANK))),
            ("xl_rect", dict(h=2, w=3, types=(NUMBER,))), ("xl_rect", dict(h=3, w=2, types=(TEXT,)))]
    if th:
        out += [("xl_rect", dict(h=2, w=2, types=kinds)), ("xl_rect", dict(h=2, w=3, types=(EMPTY, NUMBER, BOOL))),
                ("xl_rect", dict(h=4, w=4, types=(NUMBER,)))]
    out += [("xl_cell", dict(h=h, w=w)) for h, w in ((1, 1), (3, 3)) + (((5, 4),) if th else ())]
    out += [("void", dict(kind=k)) for k in ("workbook", "array", "rows")]
    out += [("xl_states", dict(h=h, w=w)) for h, w in ((1, 1), (1, 3)) + (((2, 2),) if th else ())]
    return out


# ---------------------------------------------------------------- X12
def nest(flat, shape):
    if not shape:
        return flat[0]
    n = len(flat) // shape[0]
    return [nest(flat[i * n:(i + 1) * n], shape[1:]) for i in range(shape[0])]


def transposed(flat, shape):
    """Row-major values of the array with its axes reversed."""
    n = len(flat)
    rs = shape[::-1]
    out = []
    for k in range(n):
        idx = []
        for d in reversed(rs):
            idx.append(k % d)
            k //= d
        # idx is now the index in the original axes' order
        p = 0
        for d, i in zip(shape, idx):
            p = p * d + i
        out.append(flat[p])
    return out, rs


def redim_ref(flat, shape, n):
    if n is None or len(shape) == n:
        return flat, shape
    if len(shape) < n:
        return flat, [1] * (n - len(shape)) + list(shape)
    off = len(shape) - n
    if shape.count(1) < off:
        return flat, [len(flat)]
    out = []
    for d in shape:
        if d == 1 and off:
            off -= 1
        else:
            out.append(d)
    return flat, out


def leaves(ctx, n):
    """Values of all types, that a conversion would alter."""
    out = []
    for i in range(n):
        k = i % 5
        out.append(ctx.int("n%d" % i, -99, 99) if k in (0, 3) else ctx.str("t%d" % i, 1) if k == 1 else
                   None if k == 2 else 2.5)
    return out


def typed_eq(ctx, a, b):
    if isinstance(a, list) or isinstance(b, list):
        return isinstance(a, list) and isinstance(b, list) and len(a) == len(b) and \
            all([typed_eq(ctx, x, y) for x, y in zip(a, b)])
    return type(a) is type(b) and bool(ctx.eq(a, b))


def redim(ctx, shape, plain):
    shape = list(shape)
    size = 1
    for d in shape:
        size *= d
    flat = leaves(ctx, size) if not plain else [ctx.int("n%d" % i, -99, 99) for i in range(size)]
    n = ctx.int("dim", 0, 5)
    tr = ctx.choice("transpose", ("no", False, True))
    vals = nest(flat, shape)
    keep = nest(flat, shape)
    got = _redim(vals, n if tr == "no" else [n, tr])
    ctx.observe(got)
    ctx.assert_(typed_eq(ctx, vals, keep), "the values given are not altered")
    ef, es = (flat, shape) if tr is not True else transposed(flat, shape)
    ef, es = redim_ref(ef, es, n)
    ctx.assert_(typed_eq(ctx, got, nest(ef, es)), "every value in its place, only unit dimensions added or removed")
    ctx.assert_(_redim(vals, None) is vals, "no request: the same values")
    ctx.reach("raised" if len(es) > len(shape) else "lowered" if len(es) < len(shape) else "kept")


def shaped(ctx, which):
    """The request of the rectangle's shape, and only that, applies."""
    st = Coords(ctx.int("r1", 0, 3), ctx.int("c1", 0, 3))
    hh, ww = {"scalar": (0, 0), "cell": (1, 1), "row": (1, 2), "col": (2, 1), "table": (2, 2)}[which]
    nd = None if which == "scalar" else Coords(st[0] + hh - 1, st[1] + ww - 1)
    vals = ctx.int("v", 0, 9) if nd is None else [[ctx.int("v%d%d" % (r, c), 0, 9) for c in range(ww)]
                                                  for r in range(hh)]
    req = {k: ctx.choice("d" + k, (None, 0, 1, 2, 3)) if k == which else ctx.choice("d" + k, (None, 3))
           for k in ("scalar", "cell", "row", "col", "table")}
    lasso = Lasso(st=st, nd=nd, values=vals, xl_ref="x", opts={"a": 1})
    as_args = ctx.bool("positional")
    if as_args:
        got = redim_filter(None, lasso, *[req[k] for k in ("scalar", "cell", "row", "col", "table")])
    else:
        got = redim_filter(None, lasso, **req)
    ctx.assert_(isinstance(got, Lasso) and got._replace(values=None) == lasso._replace(values=None),
                "only the values change")
    n = req[which]
    flat = [vals] if nd is None else [x for row in vals for x in row]
    ef, es = redim_ref(flat, [] if nd is None else [hh, ww], n)
    ctx.observe(got.values)
    ctx.assert_(ctx.eq(got.values, nest(ef, es)), "the dimensions of that shape")
    ctx.reach(which)


def xlwings(ctx, which):
    """The ready-made request that imitates xlwings: scalar for cells, lists for rows and columns."""
    import json

    hh, ww = {"cell": (1, 1), "row": (1, 2), "col": (2, 1), "table": (2, 2)}[which]
    sh = ArraySheet([[ctx.int("v%d%d" % (r, c), 0, 9) for c in range(3)] for r in range(3)])
    st = Coords(0, 1)
    nd = Coords(hh - 1, ww)
    spec = json.loads(xlwings_dims_call_spec())
    vals = sh.read_rect(st, nd)
    got = redim_filter(None, Lasso(st=st, nd=nd, values=vals), *spec[1]).values
    flat = [x for row in vals for x in row]
    ctx.assert_(ctx.eq(got, {"cell": flat, "row": flat, "col": flat, "table": vals}[which]), "as xlwings does")
    ctx.reach("xlwings")


def cases_x12(tier):
    th = tier == "thorough"
    shapes = [(), (1,), (3,), (1, 1), (1, 3), (3, 1), (2, 3), (1, 2, 1), (2, 1, 2), (1, 1, 2), (2, 2, 2), (1, 1, 2, 1),
              (2, 1, 1, 1), (1, 2, 1, 2), (1, 1, 1, 1), (1, 2, 1, 1, 2)]
    if th:
        shapes += [(3, 3), (2, 3, 2), (1, 3, 1, 1), (2, 1, 3, 1), (1, 1, 1, 1, 1), (2, 1, 2, 1, 2), (1, 2, 3, 1, 1),
                   (3, 3, 3), (1, 1, 2, 1, 1, 2)]
    out = [("redim", dict(shape=s, plain=p)) for s in shapes for p in (0, 1)]
    out += [("shaped", dict(which=k)) for k in ("scalar", "cell", "row", "col", "table")]
    out += [("xlwings", dict(which=k)) for k in ("cell", "row", "col", "table")]
    return out


# ---------------------------------------------------------------- X16
class FakeSheet(ABCSheet):
    def __init__(self, name, ids, siblings=None):
        self.name = name
        self.ids = ids
        self.log = []
        self.siblings = siblings

    def _close(self):
        self.log.append("close")

    def _close_all(self):
        self.log.append("close_all")

    def get_sheet_ids(self):
        return self.ids

    def open_sibling_sheet(self, sheet_id):
        return self.siblings(sheet_id)

    def list_sheetnames(self):
        return []

    def _read_states_matrix(self):
        raise AssertionError()

    def read_rect(self, st, nd):
        raise AssertionError()


class Backend(ABCBackend):
    def __init__(self, name, bid, opener=None):
        self.name = name
        self.bids = bid
        self.opener = opener
        self.log = []

    def bid(self, wb_url):
        self.log.append(("bid", wb_url))
        return self.bids

    def open_sheet(self, wb_url, sheet_id):
        self.log.append(("open", wb_url, sheet_id))
        return self.opener(wb_url, sheet_id)

    def list_sheetnames(self, wb_url):
        self.log.append(("list", wb_url))
        return [self.name]


class OpenFailed(Exception):
    pass


WBS = ("file:///w/a.xls", "file:///w/b.xls")


def oracle_put(cache, closed, keys, sheet):
    """Evict every other sheet found under one of the keys."""
    for k in keys:
        old = cache.get(k)
        if old is not None and old is not sheet:
            closed.append(old)
            for q in [q for q, s in cache.items() if s is old]:
                del cache[q]
    for k in keys:
        cache[k] = sheet


def cache(ctx, ops):
    """A history of adding, fetching and closing."""
    opened = []
    fails = []

    def open_it(wb, sid):
        if len(fails) > len(opened) and fails[len(opened)]:
            raise OpenFailed()
        n = len(opened)
        s = FakeSheet("o%d" % n, SheetId(wb, ["N" if sid is None else "name of %s" % sid, sid if sid is not None else 0]))
        opened.append((wb, sid, s))
        return s

    be = Backend("be", 1, open_it)
    sf = SheetsFactory(backends=[be])
    sheets = [FakeSheet("s%d" % i, SheetId(WBS[0], ["n%d" % i, i])) for i in range(2)]
    for s in sheets:
        s.siblings = lambda sid: open_it(WBS[0], sid)
    model, closed, dead = {}, [], []
    sids = (None, 0, 1, "n0", "x")
    for i, op in enumerate(ops):
        nop = len(opened)
        if op == "add":
            s = ctx.choice("s%d" % i, sheets)
            wb = ctx.choice("w%d" % i, (None,) + WBS)
            sid = ctx.choice("i%d" % i, (None, 1, "x"))
            sf.add_sheet(s, wb, sid)
            keys = [(w, x) for w in (WBS[0], wb) if w for x in list(s.ids.ids) + [sid]]
            oracle_put(model, closed, keys, s)
        elif op == "fetch":
            wb = ctx.choice("w%d" % i, WBS + (WBS[0][7:],) if len(ops) < 3 else WBS)
            url = WBS[0] if wb == WBS[0][7:] else wb
            sid = ctx.choice("i%d" % i, sids)
            bad = ctx.bool("f%d" % i)
            fails[:] = [False] * nop + [bad]
            st, got = ctx.outcome(sf.fetch_sheet, wb, sid)
            exp = model.get((wb, sid))
            if exp is not None:
                ctx.reach("cached")
                ctx.assert_(st == "ok" and got is exp, "the sheet cached under that key")
                ctx.assert_(len(opened) == nop, "not opened again")
            elif bad:
                ctx.reach("failed")
                ctx.assert_(st == "err" and len(opened) == nop, "the failure surfaces")
            else:
                ctx.reach("opened")
                ctx.assert_(st == "ok" and len(opened) == nop + 1 and got is opened[-1][2], "opened once")
                ctx.assert_(opened[-1][:2] == (url, sid), "that workbook and sheet")
                keys = [(w, x) for w in (url, wb) for x in list(got.ids.ids) + [sid]]
                oracle_put(model, closed, keys, got)
        elif op == "sibling":
            s = ctx.choice("s%d" % i, sheets)
            sid = ctx.choice("i%d" % i, sids)
            fails[:] = []
            got = sf.fetch_sheet(None, sid, base_sheet=s)
            if sid is None:
                ctx.assert_(got is s and len(opened) == nop, "the base sheet itself")
            elif model.get((WBS[0], sid)) is not None:
                ctx.assert_(got is model[(WBS[0], sid)] and len(opened) == nop, "the cached sibling")
                ctx.reach("sibling cached")
            else:
                ctx.assert_(len(opened) == nop + 1 and got is opened[-1][2] and opened[-1][:2] == (WBS[0], sid),
                            "the sibling, opened")
                oracle_put(model, closed, [(WBS[0], x) for x in list(got.ids.ids) + [sid]], got)
        else:
            live = []
            for s in model.values():
                if s not in live:
                    live.append(s)
            before = [len(s.log) for s in live]
            sf.close()
            for s, n in zip(live, before):
                ctx.assert_("close_all" in s.log[n:], "every cached sheet is closed")
            dead += live
            model = {}
            ctx.reach("closed")
    # the cache is as the history says
    everything = sheets + [s for _, _, s in opened]
    for s in everything:
        ctx.assert_(s.log.count("close") == len([x for x in closed if x is s]),
                    "a replaced sheet is closed, once, and no other")
        if s not in dead:
            ctx.assert_("close_all" not in s.log, "open until closed")
    nop = len(opened)
    for (wb, sid), s in model.items():
        ctx.assert_(sf.fetch_sheet(wb, sid) is s and len(opened) == nop, "still cached")
    fails[:] = []
    for wb in WBS:
        for sid in ("zz", 9):
            n = len(opened)
            ctx.assert_(sf.fetch_sheet(wb, sid) is opened[-1][2] and len(opened) == n + 1, "others are opened")


class LoggedBook(Book):
    released = 0

    def release_resources(self):
        self.released += 1


def workbooks(ctx, fetched):
    """The sheets of real workbooks: a replaced sheet is unloaded, workbooks are released when closing."""
    books = {}
    for wb in WBS:
        b = books[wb] = book_of([("n%d" % i, [[(NUMBER, i)]]) for i in range(2)])
        b.__class__ = LoggedBook
    with Patched(xd.XlrdBackend, _open_book=lambda self, url: books[url]):
        sf = SheetsFactory(backends=[xd.XlrdBackend()])
        got = []
        for k in range(fetched):
            wb, sid = ctx.choice("w%d" % k, WBS), ctx.choice("i%d" % k, (0, "n1"))
            got.append((wb, int(sid == "n1"), sf.fetch_sheet(wb, sid)))
        for wb, i, sh in got:
            ctx.assert_(sh.read_rect(Coords(0, 0), None) == i and sh.get_sheet_ids() == (wb, ["n%d" % i, i]), "the sheet asked")
        if ctx.bool("replaced"):
            wb, i, old = got[0]
            new = ArraySheet([["new"]], SheetId(wb, ["n%d" % i]))
            sf.add_sheet(new)
            ctx.assert_(sf.fetch_sheet(wb, "n%d" % i) is new, "replaced")
            for w, b in books.items():
                ctx.assert_([x is None for x in b._sheet_list] == [w == wb and j == i for j in range(2)], "only that sheet is unloaded")
            got = [g for g in got if g[2] is not old]
            ctx.reach("unloaded")
        ctx.assert_(all([not b.released for b in books.values()]), "open until closed")
        sf.close()
        for w, b in books.items():
            ctx.assert_((b.released > 0) == any([g[0] == w for g in got]), "its workbooks are released")
        ctx.reach("released")


def managed(ctx):
    """As a context-manager, sheets are closed also on errors."""
    s = FakeSheet("s", SheetId(WBS[0], ["n", 0]))
    boom = ctx.bool("boom")
    try:
        with SheetsFactory(backends=[Backend("b", 1)]) as sf:
            sf.add_sheet(s)
            if boom:
                raise OpenFailed()
        ctx.assert_(not boom, "errors are not swallowed")
    except OpenFailed:
        ctx.assert_(boom, "no other error")
    ctx.assert_("close_all" in s.log, "closed on exit")


def names(ctx, n):
    """Any names: a sheet is served exactly for its own ids."""
    a = ctx.str("a", n, "ab")
    b = ctx.str("b", n, "ab")
    q = ctx.str("q", n, "ab")
    i, j, k = ctx.int("i", 0, 3), ctx.int("j", 0, 3), ctx.int("k", 0, 3)
    ctx.assume(a != b)
    ctx.assume(i != j)
    sa = FakeSheet("a", SheetId(WBS[0], [a, i]))
    sb = FakeSheet("b", SheetId(WBS[0], [b, j]))
    opened = []

    def open_it(wb, sid):
        opened.append(FakeSheet("o", SheetId(wb, ["?", 99])))
        return opened[-1]

    sf = SheetsFactory(backends=[Backend("be", 1, open_it)])
    sf.add_sheet(sa, None, a)
    sf.add_sheet(sb, None, b)
    for key, want in ((q, sa if q == a else sb if q == b else None), (k, sa if k == i else sb if k == j else None)):
        n0 = len(opened)
        got = sf.fetch_sheet(WBS[0], key)
        if want is None:
            ctx.assert_(len(opened) == n0 + 1 and got is opened[-1], "opened")
            ctx.reach("opened")
        else:
            ctx.assert_(got is want and len(opened) == n0, "the sheet of that id")
            ctx.reach("cached")


def simple(ctx):
    """The factory without a cache opens afresh each time."""
    opened = []

    def open_it(wb, sid):
        opened.append((wb, sid, FakeSheet("o", SheetId(wb, ["n", 0]))))
        return opened[-1][2]

    sf = SimpleSheetsFactory(backends=[Backend("be", 1, open_it)])
    base = FakeSheet("s", SheetId(WBS[0], ["n", 0]), lambda sid: open_it(WBS[0], sid))
    sid = ctx.choice("sid", (None, 0, 1, "x"))
    if ctx.bool("sibling"):
        got = sf.fetch_sheet(None, sid, base_sheet=base)
        if sid is None:
            ctx.assert_(got is base and not opened, "the base sheet")
            return
    else:
        got = sf.fetch_sheet(WBS[0], sid, base_sheet=base if ctx.bool("base") else None)
    ctx.assert_(len(opened) == 1 and opened[0] == (WBS[0], sid, got), "opened")


def cases_x16(tier):
    th = tier == "thorough"
    import itertools

    out = [("managed", {}), ("simple", {}), ("workbooks", dict(fetched=1)), ("workbooks", dict(fetched=2))] + [("names", dict(n=n)) for n in (1, 2)]
    kinds = ("add", "fetch", "sibling", "close")
    for n in (1, 2):
        out += [("cache", dict(ops=o)) for o in itertools.product(kinds, repeat=n)]
    three = [o for o in itertools.product(kinds, repeat=3)]
    out += [("cache", dict(ops=o)) for o in three]
    if th:
        out += [("cache", dict(ops=o)) for o in itertools.product(kinds, repeat=4) if o.count("close") == 1 and "sibling" in o]
    return out


# ---------------------------------------------------------------- X17
def bids(ctx, n):
    url = WBS[0]
    vals = [ctx.int("b%d" % i, -3, 9) if ctx.bool("has%d" % i) else None for i in range(n)]
    sheet = FakeSheet("s", SheetId(url, ["n", 0]))
    bes = [Backend("be%d" % i, v, lambda wb, sid: sheet) for i, v in enumerate(vals)]
    cls = ctx.choice("factory", (SimpleSheetsFactory, SheetsFactory))
    sf = cls(backends=bes)
    st, got = ctx.outcome(sf.fetch_sheet, url, "x")
    willing = [v for v in vals if v is not None]
    winners = [be for be in bes if ("open", url, "x") in be.log]
    if not willing:
        ctx.reach("none")
        ctx.assert_(st == "err" and not winners, "nobody bids: an error")
        ctx.assert_("a.xls" in str(got), "naming the workbook")
        return
    ctx.assert_(st == "ok" and got is sheet, "opened")
    ctx.assert_(len(winners) == 1, "by one back-end")
    b = winners[0].bids
    ctx.assert_(b is not None and ctx.all([b >= v for v in willing]), "with the highest bid")
    ctx.assert_(all([[e for e in be.log if e[0] == "bid"] == [("bid", url)] for be in bes]),
                "each asked once about that workbook")
    ctx.reach("won")
    lst = sf.list_sheetnames(url)
    ctx.assert_([be for be in bes if ("list", url) in be.log][0].bids == b and len(lst) == 1,
                "its sheets are listed by the highest bidder too")


def registered(ctx, n):
    """Back-ends registered at any time are asked, unless some were given."""
    sheets = [FakeSheet("s%d" % i, SheetId(WBS[0], ["n", 0])) for i in range(n + 1)]
    bes = [Backend("be%d" % i, ctx.int("b%d" % i, 0, 3), lambda wb, sid, s=sheets[i]: s) for i in range(n + 1)]
    own = ctx.bool("own")
    live = []
    at = ctx.choice("at", range(n + 1))
    with Patched(backend, io_backends=live):
        for i in range(n + 1):
            if i == at:
                sf = ctx.choice("factory", (SimpleSheetsFactory, SheetsFactory))(*([[bes[n]]] if own else []))
            if i < n:
                live.append(bes[i])
        for i in range(n):
            for j in range(i):
                ctx.assume(bes[i].bids != bes[j].bids)
        got = sf.fetch_sheet(WBS[0], "n")
    if own:
        ctx.assert_(got is sheets[n], "the one given")
    else:
        best = max([be.bids for be in bes[:n]])
        ctx.assert_(got is sheets[[be.bids == best for be in bes[:n]].index(True)], "the best of those registered")
    ctx.reach("registered")


def no_sheet(ctx):
    """A winner that finds no sheet is an error."""
    sf = ctx.choice("factory", (SimpleSheetsFactory, SheetsFactory))(backends=[Backend("be", 1, lambda w, s: None)])
    st, got = ctx.outcome(sf.fetch_sheet, WBS[0], None)
    ctx.assert_(st == "err" and isinstance(got, ValueError), "an error")
    ctx.reach("none")


XL_EXTS = (".xls", ".xlsx", ".xlsm", ".xlsb", ".xlt", ".xltx", ".xltm")


def xlrd_bid(ctx, ext):
    """The workbook back-end bids on spreadsheet files only."""
    be = xd.XlrdBackend()
    name = ctx.str("n", 1, "ab")
    e = "".join([ctx.str("e%d" % i, 1, c.upper() + c.lower()) if c.isalpha() else c for i, c in enumerate(ext)])
    for url in ("file:///d/" + name + e, "http://h/" + name + e + "?q=1"):
        b = be.bid(url)
        if ext in (".xls", ".xlsx", ".xlsm"):
            ctx.assert_(b is not None and b > 0, "a spreadsheet")
            ctx.reach("bid")
        else:
            ctx.assert_(b is None, "not a spreadsheet")
            ctx.reach("abstained")
    for url in ("http://h" + e + "/d/a.txt", "http://h/a.txt?f=b" + e, "http://h/a.txt#b" + e, "file:///d" + "/a.txt"):
        ctx.assert_(be.bid(url) is None, "whatever the host or query")
    ctx.assert_(be.bid(None) is None and be.bid("") is None, "no workbook")


def cases_x17(tier):
    out = [("bids", dict(n=n)) for n in range(1, 6 if tier == "thorough" else 5)] + [("no_sheet", {}), ("registered", dict(n=1)), ("registered", dict(n=2))]
    out += [("xlrd_bid", dict(ext=e)) for e in (".xls", ".xlsx", ".xlsm", ".txt", ".csv", "", ".doc", ".ods", ".xl")]
    return out


# ---------------------------------------------------------------- X18
def number(ctx):
    f = ctx.float("f")
    ctx.assume(f == f)
    ctx.assume(abs(f) <= 1.7976931348623157e308)
    v = xd._parse_cell(xlrd.sheet.Cell(NUMBER, f))
    ctx.observe(v)
    if f.is_integer():
        ctx.reach("whole")
        ctx.assert_(isinstance(v, int), "whole numbers are integers")
        ctx.assert_(v == f, "of the same value")
    else:
        ctx.reach("fraction")
        ctx.assert_(isinstance(v, float) and v == f, "others are the same float")


def other(ctx, ctype):
    if ctype in (EMPTY, BLANK):
        v = xd._parse_cell(xlrd.sheet.Cell(ctype, ctx.choice("v", ("", "x", 0, 1.5))))
        ctx.assert_(v is None, "empty and blank cells are nothing")
    elif ctype == TEXT:
        t = ctx.str("t", 3)
        v = xd._parse_cell(xlrd.sheet.Cell(ctype, t))
        ctx.assert_(isinstance(v, str) and v == t, "texts are unchanged")
    elif ctype == BOOL:
        b = ctx.int("b", 0, 1)
        v = xd._parse_cell(xlrd.sheet.Cell(ctype, b))
        ctx.assert_(type(v) is bool and v == (b == 1), "booleans")
    elif ctype == ERROR:
        v = xd._parse_cell(xlrd.sheet.Cell(ctype, ctx.int("e", 0, 0x2a)))
        ctx.assert_(isinstance(v, float) and v != v, "errors are nan")
    else:
        st, v = ctx.outcome(xd._parse_cell, xlrd.sheet.Cell(ctx.int("ty", 7, 99), 1))
        ctx.assert_(st == "err" and isinstance(v, ValueError), "unknown types are rejected")
    ctx.reach("other")


MS = (0, 1, 499, 500, 43200000, 86399000, 17280000, 3661001)


def xl_date(day, ms, e1904):
    """The moment `day`+`ms` after the epoch (1900: with the non-existing 29 Feb 1900)."""
    if e1904:
        d0 = datetime.datetime(1904, 1, 1)
    else:
        d0 = datetime.datetime(1899, 12, 31) if day < 60 else datetime.datetime(1899, 12, 30)
    d = d0 + datetime.timedelta(days=day, milliseconds=ms)
    return d.time() if day == 0 else d


def date(ctx, e1904, via):
    """Dates in the epoch of the workbook."""
    day = ctx.choice("day", (0, 1, 2, 31, 58, 59, 61, 366, 1461, 1462, 1463, 36526, 43831, 60000))
    ms = ctx.choice("ms", MS)
    x = day + ms / 86400000.0
    exp = xl_date(day, ms, e1904)
    if via == "cell":
        v = xd._parse_cell(xlrd.sheet.Cell(DATE, x), bool(e1904))
    else:
        b = book_of([("s", [[(DATE, x), (NUMBER, 1.5)]]), ("z", [[(DATE, x)]])], datemode=e1904)
        sid = ctx.choice("sid", (None, 0, "s", "0"))
        sh = xd._open_sheet_by_name_or_index(b, "wb", sid)
        if via == "sibling":
            sh = sh.open_sibling_sheet(ctx.choice("sib", (1, "z")))
        v = sh.read_rect(Coords(0, 0), None)
        ctx.assert_(sh.read_rect(Coords(0, 0), Coords(0, 0)) == [[v]], "the same in a table")
    ctx.observe(str(v))
    ctx.assert_(type(v) is type(exp) and v == exp, "the moment in the workbook's epoch")
    ctx.reach("time" if day == 0 else "date")


def cases_x18(tier):
    out = [("number", {})] + [("other", dict(ctype=t)) for t in (EMPTY, BLANK, TEXT, BOOL, ERROR, 9)]
    out += [("date", dict(e1904=e, via=v)) for e in (0, 1) for v in ("cell", "sheet", "sibling")]
    return out


# ---------------------------------------------------------------- X19
def opening(ctx, lens, idl, kind):
    nm = [ctx.str("n%d" % i, k, "ab01") for i, k in enumerate(lens)]
    for i in range(len(nm)):
        for j in range(i):
            ctx.assume(nm[i] != nm[j])
    b = book_of([(n, [[(NUMBER, i)]]) for i, n in enumerate(nm)])
    n = len(nm)
    if kind == "int":
        sid = ctx.int("sid", 0, n + 1)
        exp = sid if sid < n else None
    elif kind == "none":
        sid, exp = None, 0
    else:
        sid = ctx.str("sid", idl, "ab012")
        exp = None
        for i in range(n):
            if nm[i] == sid:
                exp = i
        if exp is None and all([c in "012" for c in sid]):
            k = 0
            for c in sid:
                k = k * 10 + (ord(c) - 48)
            exp = k if k < n else None
            if exp is not None:
                ctx.reach("by index text")
        elif exp is not None:
            ctx.reach("by name")
    via = ctx.choice("via", ("open", "sibling"))
    if via == "open":
        st, sh = ctx.outcome(xd._open_sheet_by_name_or_index, b, "wb", sid)
    else:
        if sid is None:
            ctx.assume(False)
        st, sh = ctx.outcome(xd.XlrdSheet(b._sheet_list[-1], "wb").open_sibling_sheet, sid)
    if exp is None:
        ctx.reach("none")
        ctx.assert_(st == "err", "no such sheet: an error")
    else:
        ctx.assert_(st == "ok", "opens")
        got = sh.read_rect(Coords(0, 0), None)
        ctx.observe(got)
        ctx.assert_(got == exp, "that very sheet")
        ids = sh.get_sheet_ids()
        ctx.assert_(ids.book == "wb" and list(ids.ids) == [nm[got], got], "which knows its workbook, name and index")
        ctx.reach("opened")
    ctx.assert_(ctx.eq(list(xd.XlrdSheet(b._sheet_list[0], "wb").list_sheetnames()), nm), "all names are listed")


def cases_x19(tier):
    th = tier == "thorough"
    lens = [(1,), (1, 1), (2, 1), (1, 2, 1)] + ([(2, 2, 2), (1, 1, 1, 1)] if th else [])
    out = []
    for l in lens:
        out += [("opening", dict(lens=l, idl=0, kind=k)) for k in ("int", "none")]
        out += [("opening", dict(lens=l, idl=i, kind="text")) for i in ((1, 2, 3) if th else (1, 2))]
    return out


PROPERTIES = {
    "X11": {
        "cases": cases_x11,
        "bounds": {"quick": "array sheets up to 3x2 with any small integers, texts and empty cells mixed; workbook "
                            "sheets up to 2x3/3x2 of all cell types; all rectangles up to 2 beyond the sheet, each read twice; sheets without cells",
                   "thorough": "sheets up to 4x4, 5x4 for single cells"},
        "oracle": "direct indexing of the cells the sheet was built from",
        "outside": ["dates (X18)", "ragged sheets"],
        "stubs": ["the xlrd Book/Sheet objects are filled in memory (no file is parsed); their accessors are the real ones"],
        "must_reach": ["inside", "outside", "straddling", "cell", "beyond", "states", "void"],
        "budget": {"quick": 120, "thorough": 600},
    },
    "X12": {
        "cases": cases_x12,
        "bounds": {"quick": "rectangular nested lists of 16 shapes up to 5 dimensions and 8 values (integers, texts, "
                            "floats and empty mixed), requested dimensions 0-5, with and without transposing",
                   "thorough": "25 shapes up to 6 dimensions and 27 values"},
        "outside": ["ragged lists"],
        "oracle": "row-major index arithmetic",
        "must_reach": ["raised", "lowered", "kept", "scalar", "cell", "row", "col", "table", "xlwings"],
        "budget": {"quick": 90, "thorough": 400},
    },
    "X16": {
        "cases": cases_x16,
        "bounds": {"quick": "all histories of up to 3 operations over 2 sheets, 2 workbooks, "
                            "5 sheet ids and failing opens, by URL or path; up to 2 sheets of 2 real workbooks; any 1-2 letter names and indices for single look-ups",
                   "thorough": "histories of 4 operations with one closing and siblings"},
        "outside": ["failing closes", "more than 3 operations"],
        "oracle": "a dictionary from keys to sheets, with eviction of replaced sheets",
        "must_reach": ["cached", "opened", "failed", "closed", "sibling cached", "unloaded", "released"],
        "budget": {"quick": 150, "thorough": 700},
    },
    "X17": {
        "cases": cases_x17,
        "bounds": {"quick": "up to 4 back-ends abstaining or bidding any integer in -3..9; the xlrd back-end on 9 extensions in "
                            "any letter case, alone or in other parts of the address; up to 2 back-ends registered before or after the factory is made",
                   "thorough": "up to 5 back-ends"},
        "oracle": "the maximum of the bids",
        "must_reach": ["won", "none", "bid", "abstained", "registered"],
        "budget": {"quick": 90, "thorough": 300},
    },
    "X18": {
        "cases": cases_x18,
        "bounds": "all finite IEEE doubles; all texts of 3 ASCII characters; all boolean/error/unknown type codes; dates: 14 "
                  "days around the epochs and leap day x 8 times of day x both epochs",
        "outside": ["infinite and nan numbers (not storable in workbooks)", "dates other than those listed"],
        "oracle": "the IEEE integrality predicate; calendar arithmetic from the epoch",
        "must_reach": ["whole", "fraction", "other", "time", "date"],
        "budget": {"quick": 120, "thorough": 300},
    },
    "X19": {
        "cases": cases_x19,
        "bounds": {"quick": "workbooks of 1-3 sheets with any distinct names of 1-2 characters over a, b, 0, 1; identifiers: none, "
                            "integers to 2 beyond, all texts of 1-2 over a, b, 0, 1, 2", "thorough": "4 sheets, texts of 3"},
        "outside": ["negative indices", "signs, blanks and underscores in index texts"],
        "oracle": "name comparison, else decimal value",
        "stubs": ["the xlrd Book/Sheet objects are filled in memory"],
        "must_reach": ["by index text", "by name", "none", "opened"],
        "budget": {"quick": 90, "thorough": 300},
    },
}
