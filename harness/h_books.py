"""Opening workbooks, from files and from addresses."""
import os
import sys
import urllib.parse
import urllib.request

import xlrd
from harness.h_sheets import NUMBER, TEXT, book_of
from harness.h_utils import Patched
from pandalone import xleash
from pandalone.xleash import Coords, SheetsFactory
from pandalone.xleash.io import _xlrd as xd
from pandalone.xleash.io.backend import SimpleSheetsFactory

REAL_OPEN, REAL_URLOPEN = xlrd.open_workbook, urllib.request.urlopen
PARAMS = ["filename", "logfile", "verbosity", "use_mmap", "file_contents", "encoding_override", "formatting_info", "on_demand", "ragged_rows"]


class BadBook(Exception):
    pass


class Response:
    """What a server replied with."""

    def __init__(self, log, data):
        self.log, self.data, self.at = log, data, 0

    def read(self, n=-1):
        if "closed" in self.log:
            raise ValueError("read of a closed response")
        # when limited, as much as has already arrived
        out = self.data[self.at:] if n is None or n < 0 else self.data[self.at:self.at + min(n, 3)]
        self.at += len(out)
        return out

    def close(self):
        self.log.append("closed")

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class World:
    """The library and the network, recording what is asked from them."""

    def __init__(self, books, fail=None):
        self.books, self.fail = books, fail
        self.files, self.urls, self.log = [], [], []

    def open_workbook(self, *args, **kwds):
        k = dict(zip(PARAMS, args), **kwds)
        assert all([n in PARAMS for n in k])
        out = k.get("logfile")
        assert out is not None and out is not sys.stdout and out is not sys.stderr, "the library must not print"
        out.write("WARNING something\n")
        data = k.get("file_contents")
        if data is not None:
            assert isinstance(data, bytes)
        self.files.append((k.get("filename"), data))
        if self.fail == "book":
            raise BadBook("bad book")
        return self.books()

    def urlopen(self, url, *args, **kwds):
        self.urls.append(url if isinstance(url, str) else url.full_url)
        if self.fail == "url":
            raise BadBook("no network")
        return Response(self.log, b"PK-content")

    def __enter__(self):
        self.undo = []
        for real, mod, name, fake in ((REAL_OPEN, xlrd, "open_workbook", self.open_workbook),
                                      (REAL_URLOPEN, urllib.request, "urlopen", self.urlopen)):
            for m, n in [(mod, name)] + [(xd, n) for n in dir(xd) if getattr(xd, n) is real]:
                self.undo.append((m, n, real))
                setattr(m, n, fake)
        return self

    def __exit__(self, *a):
        for m, n, real in self.undo:
            setattr(m, n, real)


def two_sheets():
    return book_of([("one", [[(NUMBER, 1), (TEXT, "x")]]), ("two", [[(NUMBER, 2), (TEXT, "y")]])])


def opened(ctx, via, where, wid):
    """One of the ways to come to a sheet; None for lists of sheets."""
    be = xd.XlrdBackend()
    if via == "backend":
        return be.open_sheet(where, "two")
    sf = (SimpleSheetsFactory if via == "simple" else SheetsFactory)(backends=[be])
    if via == "names":
        ctx.assert_(sf.list_sheetnames(wid) == ["one", "two"], "the sheets of the workbook")
        return None
    if via == "lasso":
        ctx.assert_(xleash.lasso(wid + "#two!A1:B1", sheets_factory=sf) == [[2, "y"]], "the cells of the sheet")
        return None
    return sf.fetch_sheet(wid, 1)


def checked(ctx, w, via, where, wid):
    st, sh = ctx.outcome(opened, ctx, via, where, wid)
    if w.fail:
        ctx.reach("failed")
        ctx.assert_(st == "err" and not isinstance(sh, AssertionError), "the failure is reported")
        return
    ctx.assert_(st == "ok", "opened")
    if sh is not None:
        ctx.assert_(sh.read_rect(Coords(0, 0), Coords(0, 1)) == [[2, "y"]], "the sheet asked for")
        ctx.assert_(sh.get_sheet_ids().book == where, "which knows its workbook")


CHARS = "a. ~-(é"


def local(ctx, n, form, via, fail=None):
    """A file, by its path or its URL."""
    name = ctx.str("name", n, CHARS + ("%#?;&" if form == "url" else ""))
    ctx.assume(not name.startswith("~"))    # users' folders
    ctx.assume(form != "relative" or not name.startswith(" "))
    path = "/d/" + name + ctx.choice("ext", [".xls", ".xlsx", ".XLSM"])
    where = "file:///d/" + (urllib.parse.quote(path[3:]) if form == "url" else path[3:])
    wid = path if form == "path" else path[3:] if form == "relative" else where
    with Patched(os, getcwd=lambda: "/d"), World(two_sheets, fail) as w:
        checked(ctx, w, via, where, wid)
        ctx.assert_(w.urls == [], "nothing is downloaded")
        ctx.assert_(len(w.files) == 1 and w.files[0][1] is None, "one file is opened, once")
        ctx.observe(w.files[0][0])
        ctx.assert_(w.files[0][0] == path, "that very file")
    ctx.reach("local")


def remote(ctx, n, scheme, via, fail=None):
    """A download."""
    url = scheme + "://h:80/" + ctx.str("name", n, "ab%2.~-") + ctx.choice("ext", [".xls", ".xlsx", ".XLSM"]) + ctx.choice(
        "more", ["", "?q=1", "?q=1&r=;2", ";p=1"])
    ctx.assume("%" not in url or url.count("%2") == url.count("%") == url.count("%2a"))
    with World(two_sheets, fail) as w:
        checked(ctx, w, via, url, url)
        ctx.assert_(len(w.urls) == 1 and w.urls[0] == url, "the address is asked, once")
        if fail != "url":
            ctx.assert_(len(w.files) == 1 and w.files[0][1] == b"PK-content", "the workbook is what it replied")
            ctx.assert_(w.log == ["closed"], "the connection is closed")
    ctx.reach("remote")


VIAS = ["backend", "factory", "simple", "names", "lasso"]


def cases_x23(tier):
    q = tier == "quick"
    out = []
    for n in (0, 1, 2) if q else (0, 1, 2, 3):
        for form in ("url", "path", "relative"):
            for via in VIAS:
                if form != "url" and via == "backend" or form == "url" and via == "lasso" and n > 1:
                    continue
                if n:
                    out.append(("local", dict(n=n, form=form, via=via)))
        for scheme in ("http", "https"):
            for via in VIAS:
                if n < 2 or not q:
                    out.append(("remote", dict(n=n, scheme=scheme, via=via)))
    for via in VIAS:
        out.append(("local", dict(n=1, form="url", via=via, fail="book")))
        for fail in ("book", "url"):
            out.append(("remote", dict(n=1, scheme="http", via=via, fail=fail)))
    return out


PROPERTIES = {
    "X23": {
        "cases": cases_x23,
        "bounds": {"quick": "files with names of 1-2 characters over 7 (12 in URLs, quoted) and 3 extensions, by absolute or relative path "
                            "or by URL; addresses of http and https with 0-1 characters over 7 and 4 queries; through the back-end, both "
                            "factories, the listing of sheets and lasso(); failing openings and downloads",
                   "thorough": "names of up to 3 characters"},
        "outside": ["the decoding of workbooks (N05)", "characters special to URLs in paths", "users' folders", "relative paths starting with blanks (the library of URLs strips them)", "Windows (U08)"],
        "oracle": "the name or address put together",
        "stubs": ["xlrd.open_workbook() and urlopen() are recorded, and give a workbook in memory and a reply"],
        "must_reach": ["local", "remote", "failed"],
        "budget": {"quick": 90, "thorough": 400},
    },
}
