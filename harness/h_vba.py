"""Updating the VBA code of Excel workbooks, with stand-ins for Excel (COM) and `xlwings`."""
import glob
import os
import sys

from harness.h_utils import Patched, fold, same_word
from pandalone import winutils as W, xlsutils as X


class ComError(Exception):
    """Stands for `win32com.universal.com_error`."""

    def __init__(self, hresult=-1, text=""):
        Exception.__init__(self, hresult)
        self.hresult, self.excepinfo = hresult, (0, "Excel", text)


class Namespace:
    def __init__(self, **kw):
        for k, v in kw.items():
            setattr(self, k, v)


class Modules:
    """`sys.modules` with stand-ins for a while."""

    def __init__(self, **mods):
        self.mods = {k.replace("__", "."): v for k, v in mods.items()}

    def __enter__(self):
        self.old = {k: sys.modules.get(k) for k in self.mods}
        sys.modules.update(self.mods)

    def __exit__(self, *a):
        for k, v in self.old.items():
            if v is None:
                del sys.modules[k]
            else:
                sys.modules[k] = v


def excel(xw=None, shown=None):
    box = Namespace(textbox=lambda **kw: shown.append(kw))
    uni = Namespace(com_error=ComError)
    return Modules(win32com=Namespace(universal=uni), win32com__universal=uni, easygui=box, xlwings=xw)


class Comp:
    """A VBComponent."""

    def __init__(self, name, kind, source=None):
        self.Name, self.Type, self.source = name, kind, source
        self.CodeModule = Namespace(CountOfLines=7)


class Comps:
    """VBComponents: named without regard to case, numbering the imported ones."""

    def __init__(self, items, fails=(), names=None, broken=None):
        """`names`: of the imported ones; `broken`: the lookup not answered at all."""
        self.items, self.fails, self.imports = list(items), list(fails), 0
        self.names, self.broken, self.lookups = names, broken, 0

    def __iter__(self):
        return iter(self.items)

    def Item(self, name):
        self.lookups += 1
        if self.broken is not None and self.lookups - 1 == self.broken:
            raise OSError("Excel is gone")
        for c in self.items:
            if same_word(fold(c.Name), fold(name)):
                return c
        raise ComError(-2147352565, "Subscript out of range")

    def Remove(self, comp):
        for i, c in enumerate(self.items):
            if c is comp:
                del self.items[i]
                return
        raise ComError(-1, "not in this workbook")

    def Import(self, path):
        self.imports += 1
        if self.imports - 1 < len(self.fails) and self.fails[self.imports - 1]:
            raise ComError(-2, "cannot read %s" % path)
        c = Comp("Module%i" % self.imports if self.names is None else self.names[self.imports - 1], 1, path)
        self.items.append(c)
        return c


def existing(ctx, k, n, alph):
    comps = []
    for i in range(k):
        name = ctx.str("mod%d" % i, n, alph)
        ctx.assume(len(name) > 0)
        for c in comps:
            ctx.assume(not same_word(fold(c.Name), fold(name)))
        comps.append(Comp(name, ctx.choice("type%d" % i, [1, 100, 2])))
    return comps


def files_of(ctx, k, n, alph, folder, exts):
    """Names (without folder and extension) and paths."""
    out = []
    for i in range(k):
        name = ctx.str("file%d" % i, n, alph)
        ctx.assume(len(name) > 0)
        out.append((name, folder + name + ctx.choice("ext%d" % i, exts)))
    return out


def final_of(files):
    """The file every module comes from, in the end."""
    out = []
    for i, (name, path) in enumerate(files):
        later = False
        for o, _ in files[i + 1:]:
            if same_word(fold(o), fold(name)):
                later = True
        if not later:
            out.append((name, path))
    return out


def check_modules(ctx, comps, old, files, cwd):
    """The old ones not named as a file are as they were; the others come from the files."""
    kept = [c for c in old if not any([same_word(fold(c[0].Name), fold(n)) for n, _ in files])]
    for c, name, kind in kept:
        ctx.assert_(any([c is x for x in comps.items]), "other module kept")
        ctx.assert_(c.Name == name and c.Type == kind and c.source is None, "other module untouched")
    final = final_of(files)
    ctx.assert_(len(comps.items) == len(kept) + len(final), "one module per name")
    for name, path in final:
        got = [c for c in comps.items if c.source is not None and c.Name == name]
        ctx.assert_(len(got) == 1, "module for every file")
        ctx.assert_(got[0].source == cwd + path, "the file's code")
    return kept, final


def imported(ctx, k, m, n, alph, folder, fail):
    """Importing `m` files in a workbook of `k` modules."""
    old = existing(ctx, k, n, alph)
    files = files_of(ctx, m, n, alph, folder, [".vba", ".bas"])
    for i, (a, _) in enumerate(files):
        for b, _ in files[i + 1:]:
            # (a file per name: any others are indistinguishable in a map)
            ctx.assume(a != b)
    fails = [ctx.bool("fail%d" % i) if fail else False for i in range(m)]
    names = None
    if not fail and ctx.bool("numbered"):
        names = [a + "1" for a, _ in files]
    broken = ctx.choice("broken", [None] + list(range(m))) if fail else None
    comps = Comps(old, fails, names, broken)
    was = [(c, c.Name, c.Type) for c in old]
    with excel(), Patched(os, getcwd=lambda: "/w"):
        st, got = ctx.outcome(X._import_vba_files, comps, {a: p for a, p in files})
    stop = None
    for i in range(m):
        if fails[i]:
            stop = i
            break
    ctx.observe(st, [c.Name for c in comps.items])
    if broken is not None and (stop is None or broken <= stop):
        ctx.assert_(st == "err" and isinstance(got, OSError), "other failures are reported")
        ctx.assert_(comps.imports == broken, "and stop the import")
        ctx.reach("broken")
        return
    if stop is not None:
        ctx.assert_(st == "err" and isinstance(got, ComError), "failed import reported")
        ctx.assert_(comps.imports == stop + 1, "stopped at the failure")
        named = files[:stop + 1]
        for c, name, kind in was:
            if not any([same_word(fold(name), fold(f)) for f, _ in named]):
                ctx.assert_(any([c is x for x in comps.items]) and c.Name == name, "other module kept")
        ctx.reach("failed import")
        return
    ctx.assert_(st == "ok", "imported")
    kept, final = check_modules(ctx, comps, was, files, "" if folder[:1] == "/" else "/w/")
    if len(kept) < k:
        ctx.reach("replaced")
    if len(kept) == k and m:
        ctx.reach("added")
    if len(final) < m:
        ctx.reach("same name in other case")


def removed(ctx, k, m, n, alph, d=None):
    """Only code modules are removed; all of them when no name is given; `d`: length of the names given, when another."""
    old = existing(ctx, k, n, alph)
    names = [ctx.str("del%d" % i, n if d is None else d, alph) for i in range(m)]
    comps = Comps(old)
    was = [(c, c.Name, c.Type) for c in old]
    X._remove_vba_modules(comps, *names)
    left = [w for w in was if w[2] != 1 or (m and not any([same_word(fold(w[1]), fold(d)) for d in names]))]
    ctx.observe([c.Name for c in comps.items])
    ctx.assert_(len(comps.items) == len(left), "those asked")
    for (c, name, kind), x in zip(left, comps.items):
        ctx.assert_(c is x and x.Name == name and x.Type == kind, "the others as they were")
    if m > 1 and len(left) <= k - 2:
        ctx.reach("two removed")
    if any([w[2] != 1 and any([same_word(fold(w[1]), fold(d)) for d in names]) for w in was]):
        ctx.reach("not a code module")
    if not m and len(left) < k:
        ctx.reach("all removed")


def gathered(ctx, m, n, alph, folder):
    files = files_of(ctx, m, n, alph, folder, ["", ".v", ".v.b"])
    for i in range(m):
        # Hidden files have no extension; dots within the name are its extension's.
        ctx.assume(not any([c == "." for c in files[i][0]]))
    asked = []

    def found(pattern):
        asked.append(pattern)
        return [p for _, p in files]

    with Patched(glob, glob=found):
        got = X._gather_files("some/*.v")
    ctx.assert_(asked == ["some/*.v"], "the pattern asked")
    stems = [(f + ".v" if p[-4:] == ".v.b" else f, p) for f, p in files]
    last = []
    for i, (f, p) in enumerate(stems):
        if not any([f == o for o, _ in stems[i + 1:]]):
            last.append((f, p))
    ctx.observe(sorted(got.values()))
    ctx.assert_(len(got) == len(last), "an entry per name")
    for f, p in last:
        ctx.assert_(f in got and got[f] == p, "the file of that name")
    ctx.reach("gathered" if len(last) == m else "same names")


def cases_v01(tier):
    deep = tier == "thorough"
    for k, m in [(0, 1), (2, 1), (1, 2), (2, 2)] + ([(3, 2), (2, 3)] if deep else []):
        yield "imported", dict(k=k, m=m, n=2 if k + m < 4 or deep else 1, alph="aAb", folder="d/", fail=False)
    yield "imported", dict(k=1, m=2, n=1, alph="aAb", folder="d/", fail=True)
    yield "imported", dict(k=2, m=1, n=1, alph="aAb", folder="/d/", fail=True)
    for k, m in [(2, 0), (2, 1), (2, 2), (3, 2)] + ([(3, 3)] if deep else []):
        yield "removed", dict(k=k, m=m, n=2 if k + m < 4 or deep else 1, alph="aAb")
    for n, d in ((2, 1), (1, 2), (1, 0), (2, 3)):
        yield "removed", dict(k=1, m=1, n=n, alph="aAb", d=d)
    for m in (1, 2, 3) if deep else (1, 2):
        for folder in ("", "d/", "d.e/"):
            yield "gathered", dict(m=m, n=2, alph="ab", folder=folder)


class Workbook:
    """The COM object, recording what is asked from it."""

    def __init__(self, name, path, fails=False, project=None):
        self.Name, self.Path, self.fails, self.project = name, path, fails, project
        self.FullName = path + "/" + name if path else name
        self.Application = Namespace(DisplayAlerts=True)
        self.saves = []

    @property
    def VBProject(self):
        if isinstance(self.project, Exception):
            raise self.project
        return self.project

    def Save(self):
        self.saves.append((None, None, self.Application.DisplayAlerts))
        if self.fails:
            raise ComError(-3, "disk full")

    def SaveAs(self, path, FileFormat=None):
        self.saves.append((path, FileFormat, self.Application.DisplayAlerts))
        if self.fails:
            raise ComError(-3, "disk full")


MACROS = [".xlsm", ".XLTM", ".xlm"]
PLAIN = [".xls", ".xlsx", ".xlt", "", ".m.x"]


def expected_save(book, ext, out):
    """The path a workbook is saved as (None for its own)."""
    if out:
        return out
    if not any([ext is e for e in MACROS]):
        return book.FullName + ".xlsm"
    if book.Path:
        return None
    return "/w/" + book.Name


def saved(ctx, n, alph):
    stem = ctx.str("stem", n, alph)
    # (names starting with dots have no extension)
    ctx.assume(len(stem) > 0 and stem[0] != ".")
    ext = ctx.choice("ext", MACROS + PLAIN)
    book = Workbook(stem + ext, ctx.choice("path", ["", "/d", "/d.m"]), fails=ctx.bool("fails"))
    kind = ctx.choice("out", ["none", "empty", "given"])
    out = {"none": None, "empty": "", "given": "o"}[kind]
    if out:
        out = ctx.str("new", n, alph)
        ctx.assume(len(out) > 0)
    with Patched(os, getcwd=lambda: "/w"):
        st, got = ctx.outcome(X._save_excel_as_macro_enabled, book, out)
    want = expected_save(book, ext, out)
    ctx.observe(st, book.saves)
    ctx.assert_(len(book.saves) == 1, "saved once")
    path, fmt, alerts = book.saves[0]
    ctx.assert_((path is None) == (want is None), "in place only when macro-enabled")
    if want is not None:
        ctx.assert_(path == want, "the new name")
        ctx.assert_(fmt == 52, "macro-enabled")
        ctx.assert_(alerts is False, "unattended")
    ctx.assert_(book.Application.DisplayAlerts is True, "alerts shown again")
    if book.fails:
        ctx.assert_(st == "err" and isinstance(got, ComError), "failure reported")
        ctx.reach("failed to save")
    else:
        ctx.assert_(st == "ok", "saved")
        ctx.reach("in place" if want is None else "cloned" if kind == "none" else "new name")


class Books:
    """`xlwings`: opens workbooks by name."""

    def __init__(self, active, others):
        self.books, self.others, self.opened = Namespace(active=active), others, []

    def Book(self, name):
        self.opened.append(name)
        return self.others


def updated(ctx, n, alph, via_main):
    """The whole command, from the file-names to the workbook saved."""
    state = ctx.choice("project", ["free", "protected", "untrusted", "other error"])
    mods = existing(ctx, 1, n, alph)
    was = [(c, c.Name, c.Type) for c in mods]
    comps = Comps(mods)
    project = {"free": Namespace(Protection=0, VBComponents=comps),
               "protected": Namespace(Protection=1, VBComponents=comps),
               "untrusted": ComError(-2147352567, "not trusted"),
               "other error": ComError(-5, "gone")}[state]
    books = [Workbook("in.xlsm", "/d", project=project), Workbook("act.xls", "/d", project=project)]
    wbs = [Namespace(api=b) for b in books]
    use = ctx.choice("book", ["named", "active", "no active"])
    xw = Books(wbs[1] if use != "no active" else None, wbs[0])
    files = files_of(ctx, ctx.choice("files", [0, 1, 2]), n, alph, "/f/", [".vba"])
    for i, (a, _) in enumerate(files):
        for b, _ in files[i + 1:]:
            ctx.assume(a != b)
    out = ctx.choice("out", [None, "/o/new"]) if use == "named" else None
    shown = []
    asked = []

    def found(pattern):
        asked.append(pattern)
        return [p for _, p in files]

    args = ["/x/*.vba"]
    if use == "named":
        args.append("in.xlsm")
    if out:
        args.append(out)
    with excel(xw, shown), Patched(os, getcwd=lambda: "/w"), Patched(glob, glob=found):
        if via_main:
            st, got = ctx.outcome(X.main, "xlsutils", *args)
        else:
            st, got = ctx.outcome(X.import_vba_into_excel_workbook, *args)
    ctx.observe(st, [b.saves for b in books], [c.Name for c in comps.items])
    ctx.assert_(xw.opened == (["in.xlsm"] if use == "named" else []), "the workbook opened")
    book, other = (books[0], books[1]) if use == "named" else (books[1], books[0])
    ctx.assert_(not other.saves, "no other workbook touched")
    if use == "no active":
        ctx.assert_(st == "err" and isinstance(got, ValueError), "no workbook")
        ctx.reach("no workbook")
    elif state != "free":
        ctx.assert_(st == "err", "cannot access the code")
        ctx.assert_(isinstance(got, ComError) == (state == "other error"), "explained")
        ctx.assert_(len(shown) == (0 if state == "other error" else 1), "instructions shown")
        ctx.assert_(not book.saves and [c for c in comps.items] == mods, "nothing changed")
        ctx.reach(state)
    else:
        ctx.assert_(st == "ok", "updated")
        ctx.assert_(asked == ["/x/*.vba"], "the files asked")
        if not via_main:
            ctx.assert_(got is (wbs[0] if use == "named" else wbs[1]), "the workbook returned")
        check_modules(ctx, comps, was, files, "")
        if files:
            want = expected_save(book, ".xls" if use == "active" else MACROS[0], out)
            ctx.assert_(len(book.saves) == 1 and book.saves[0][0] == want, "saved")
            ctx.reach("updated")
        else:
            ctx.assert_(not book.saves, "not saved")
            ctx.reach("no files")


def leave(msg=None):
    """`exit()`, without closing the input."""
    raise SystemExit(msg)


def command(ctx, n, alph):
    """The arguments of the command."""
    calls = []

    def stub(*a):
        calls.append(a)

    argc = ctx.choice("argc", [0, 1, 2, 3])
    args = [ctx.str("arg%d" % i, n, alph) for i in range(argc)]
    first = ctx.choice("first", ["as is", "--pandalone"]) if args else "as is"
    if first != "as is":
        args[0] = first
    with Patched(X, import_vba_into_excel_workbook=stub, exit=leave):
        try:
            st, got = ctx.outcome(X.main, "/bin/cmd", *args)
        except SystemExit as ex:
            st, got = "exit", ex
    ctx.observe(st, len(calls))
    if not args or (args[0] != "--pandalone" and args[0][:2] == "--"):
        ctx.assert_(st == "exit" and bool(got.code), "usage")
        ctx.assert_(not calls, "nothing done")
        ctx.reach("usage")
        return
    ctx.assert_(st == "ok" and len(calls) == 1 and len(calls[0]) == argc, "called")
    for i in range(1, argc):
        ctx.assert_(calls[0][i] == args[i], "the arguments")
    if first == "--pandalone":
        ctx.assert_(calls[0][0] == os.path.join(os.path.dirname(X.__file__), "*.vba"), "the modules of the library")
        ctx.reach("library modules")
    else:
        ctx.assert_(calls[0][0] == args[0], "the files")
        ctx.reach("called")


EXCEL = ["xls", "xlsx", "xlsm", "xlt", "xltx", "xltm", "xlw", "xlm"]


def excel_name(ctx, n, alph):
    name = ctx.str("name", n, alph)
    ext = None
    for i, c in enumerate(name):
        if c == ".":
            ext = fold(name[i + 1:])
    got = bool(X.is_excel_file(name))
    ctx.observe(got)
    want = ext is not None and any([same_word(ext, e) for e in EXCEL])
    ctx.assert_(got == want, "by extension")
    ctx.reach("excel" if want else "other")


def cases_v02(tier):
    deep = tier == "thorough"
    yield "saved", dict(n=3 if deep else 2, alph="mM.x")
    for via_main in (False, True):
        yield "updated", dict(n=2 if deep else 1, alph="aAb", via_main=via_main)
    yield "command", dict(n=4 if deep else 3, alph="-p")
    for n in range(4, 9 if deep else 8):
        yield "excel_name", dict(n=n, alph=".xlstmwXM")


# ---------------------------------------------------------------- V03: shortcuts, folders and Excel itself
ATTRS = ("Targetpath", "IconLocation", "Description", "Arguments", "WorkingDirectory")


class Shortcut:
    """Names of its attributes are not case-sensitive, as those of COM objects."""

    def __init__(self, log, bad, savefails):
        self.__dict__.update(log=log, bad=bad, savefails=savefails)

    def __setattr__(self, name, value):
        if name.lower() == self.bad:
            raise ComError(-1, "cannot set")
        self.log.append((name.lower(), value))

    def __getattr__(self, name):
        if name.lower() == "save":
            return self.do_save
        raise AttributeError(name)

    def do_save(self):
        self.log.append(("save", None))
        if self.savefails:
            raise ComError(-1, "cannot save")


def shortcut(ctx, n, named, nofile):
    log, made = [], []
    bad = ctx.choice("bad", (None,) + tuple([a.lower() for a in ATTRS]))
    sh = Namespace(CreateShortCut=lambda path: made.append(path) or Shortcut(log, bad, nofile))
    path, target = ctx.str("path", n, "au.") + ctx.choice("ext", (".lnk", ".url", "")), ctx.str("target", n, "a/")
    opts = {}
    for k in ("wdir", "target_args", "icon_path", "desc"):
        if ctx.bool("has." + k):
            opts[k] = ctx.str(k, n, "ab") if ctx.bool("some." + k) else None
    if named:
        st, ex = ctx.outcome(W.win_create_shortcut, sh, path, target, **opts)
    else:
        st, ex = ctx.outcome(W.win_create_shortcut, sh, path, target, opts.get("wdir"), opts.get("target_args"),
                             opts.get("icon_path"), opts.get("desc"))
    ctx.assert_(len(made) == 1 and made[0] == path, "one, where asked")
    ctx.assert_(len([a for a, _ in log if a == "save"]) == 1 and log[-1][0] == "save", "saved once, last of all")
    want = {"targetpath": target}
    for k, a in (("wdir", "workingdirectory"), ("target_args", "arguments"), ("icon_path", "iconlocation"), ("desc", "description")):
        if opts.get(k):
            want[a] = opts[k]
    fails = bad in want
    for a, v in log[:-1]:
        ctx.assert_(a in want and v == want[a], "as asked")
    if not fails:
        ctx.assert_(len(log) == len(want) + 1 and all([a in [x for x, _ in log] for a in want]), "each, once")
    ctx.assert_((st == "err") == bool(fails or nofile), "failures are reported")
    ctx.assert_(st != "err" or isinstance(ex, ComError), "as they are")
    ctx.reach("failed" if fails else "not saved" if nofile else "created")


def shells(ctx, n):
    """What is asked from the Windows shell, and from Excel."""
    asked = []
    sh = Namespace(SpecialFolders=lambda name: asked.append(name) or "c:/" + name)
    name = ctx.str("name", n, "aB")
    csidl = ctx.choice("csidl", (None, "CSIDL_DESKTOP"))
    got = W.win_folder(sh, name, csidl) if csidl else W.win_folder(sh, name)
    ctx.assert_(got == "c:/" + name and asked == [name], "the folder that the shell tells")
    client = Namespace(Dispatch=lambda what: ("app", what))
    with Modules(win32com=Namespace(client=client), win32com__client=client):
        ctx.assert_(W.win_shell() == ("app", "WScript.Shell"), "the shell")
    how = ctx.choice("how", ("there", "missing", "no win32com"))
    tried = []

    def dispatch(what):
        tried.append(what)
        if how == "missing":
            raise ComError(-1, "no such class")
        return "excel"

    client = Namespace(dynamic=Namespace(Dispatch=dispatch)) if how != "no win32com" else Namespace()
    with Patched(X, _xl_installed=ctx.choice("known", (None, True, False))):
        known = X._xl_installed
        with Modules(win32com=Namespace(client=client), win32com__client=client):
            first = X.check_excell_installed()
            again = X.check_excell_installed()
    want = known if known is not None else how == "there"
    ctx.assert_(first is want and again is want, "whether Excel is there")
    ctx.assert_(tried == (["Excel.Application"] if known is None and how != "no win32com" else []), "asked once only")
    ctx.reach(how)


def cases_v03(tier):
    q = tier == "quick"
    for named in (True, False):
        for nofile in (False, True):
            yield "shortcut", dict(n=1 if q else 2, named=named, nofile=nofile)
    yield "shells", dict(n=2 if q else 4)


PROPERTIES = {
    "V01": {
        "cases": cases_v01,
        "bounds": {"quick": "up to 3 modules of 3 kinds and 2 files (or names to remove), names of <=2 letters in either case; "
                            "any import failing, or Excel breaking down at a lookup; files with 0-2 extensions in 3 folders",
                   "thorough": "3 modules and 3 files or names"},
        "outside": ["what Excel does (a stand-in names modules case-insensitively and imports under another name)",
                    "which files match a wildcard (decided by the library)", "two files differing by their extension only"],
        "oracle": "the modules by case-insensitive name: from the last file of that name, others as they were",
        "stubs": ["VBComponents, com_error, easygui", "glob.glob", "os.getcwd"],
        "must_reach": ["failed import", "broken", "replaced", "added", "same name in other case", "two removed", "not a code module",
                       "all removed", "gathered", "same names"],
        "budget": {"quick": 200, "thorough": 600},
    },
    "V02": {
        "cases": cases_v02,
        "bounds": {"quick": "names of <=2 characters with 8 extensions, in 3 folders, new name or not, save failing or not; "
                            "whole command with 0-2 files, 1 module, 4 states of the project; <=3 arguments of <=3 characters; "
                            "file names of 4-7 characters",
                   "thorough": "one more character each"},
        "outside": ["what Excel does when saving", "extensions not of Excel that end in `m`"],
        "oracle": "table of extensions; recorded calls",
        "stubs": ["workbooks and xlwings", "com_error, easygui", "glob.glob", "os.getcwd"],
        "must_reach": ["failed to save", "in place", "cloned", "new name", "no workbook", "protected", "untrusted",
                       "other error", "updated", "no files", "usage", "library modules", "called", "excel", "other"],
        "budget": {"quick": 120, "thorough": 600},
    },
    "V03": {
        "cases": cases_v03,
        "bounds": {"quick": "any subset of the options, given by name or by place, with texts of one letter, that may be empty; any of the 5 "
                            "attributes failing, saving failing or not; folder names of <=2 letters; Excel there, missing or unreachable",
                   "thorough": "one more letter"},
        "outside": "what the Windows shell does",
        "oracle": "recorded calls",
        "stubs": ["the shell and its shortcuts", "win32com.client"],
        "must_reach": ["created", "failed", "not saved", "there", "missing", "no win32com"],
        "budget": {"quick": 90, "thorough": 400},
    },
}
