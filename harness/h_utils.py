"""Utilities: flags, names, paths, URLs, files."""
import errno
import importlib.util
import io
import ntpath
import nturl2path
import os
import os.path as osp
import posixpath
import stat
import subprocess
import sys
import urllib.request

import pandalone.utils as U

EMPTY = object()


class Patched:
    """Attributes of `target` replaced for a while."""

    def __init__(self, target, **attrs):
        self.target, self.attrs = target, attrs

    def __enter__(self):
        self.old = {k: getattr(self.target, k, EMPTY) for k in self.attrs}
        for k, v in self.attrs.items():
            setattr(self.target, k, v)

    def __exit__(self, *a):
        for k, v in self.old.items():
            if v is EMPTY:
                delattr(self.target, k)
            else:
                setattr(self.target, k, v)


NT = dict(sep="\\", altsep="/", pathsep=";", name="nt", path=ntpath)


def load_nt():
    """The module as it would be on Windows (with the paths of the library for it)."""
    spec = importlib.util.spec_from_file_location("pandalone.utils", U.__file__, loader=U.__spec__.loader)
    m = importlib.util.module_from_spec(spec)
    real = sys.modules["os.path"]
    try:
        sys.modules["os.path"] = ntpath
        with Patched(os, **NT):
            spec.loader.exec_module(m)
    finally:
        sys.modules["os.path"] = real
    return m


UNT = load_nt()


def on_nt():
    return Patched(os, **NT)


ANY = tuple(range(128))
BLANKS = " \t\n\v\f\r\x1c\x1d\x1e\x1f"


# ---------------------------------------------------------------- U01
def same_word(s, w):
    if len(s) != len(w):
        return False
    for c, d in zip(s, w):
        if c != d and c != d.upper():
            return False
    return True


def ref_flag(s):
    while s and s[0] in BLANKS:
        s = s[1:]
    while s and s[-1] in BLANKS:
        s = s[:-1]
    for w in ("yes", "true", "on"):
        if same_word(s, w):
            return True
    for w in ("no", "false", "off", "0", ""):
        if same_word(s, w):
            return False
    return True


def flags(ctx, n, alph=ANY):
    s = ctx.str("s", n, alph)
    want = ref_flag(s)
    for f in (U.str2bool, U.obj2bool):
        st, got = ctx.outcome(f, s)
        ctx.observe(st, got if st == "ok" else type(got).__name__)
        ctx.assert_(st == "ok" and got is want, "the flag of a text")
    ctx.reach("true" if want else "false")


class Unstripped:
    strip = None


class Erring:
    def strip(self, *args):
        raise KeyError("strip")


class Stripped:
    def strip(self, *args):
        return 3

    def __len__(self):
        return 0


NONTEXTS = [Unstripped(), Erring(), Stripped(), None, 0, 1, -2.5, True, False, [], ["no"], (), {}, {"a": 0}, object(), float("nan"), int]


def nontext_flags(ctx):
    v = ctx.choice("v", NONTEXTS)
    st, got = ctx.outcome(U.str2bool, v)
    ctx.assert_(st == "err" and isinstance(got, ValueError), "no flag out of other values")
    st, got = ctx.outcome(U.obj2bool, v)
    ctx.assert_(st == "ok" and got is bool(v), "truth of other values")
    ctx.reach("other values")


def bytes_flags(ctx):
    """Bytes are not texts for the general parser."""
    v = ctx.choice("v", [b"", b"no", b" ", bytearray(), bytearray(b"0")])
    st, got = ctx.outcome(U.obj2bool, v)
    ctx.assert_(st == "ok" and got is (len(v) > 0), "truth of bytes")


def int_flags(ctx):
    v = ctx.int("v", -1000, 1000)
    st, got = ctx.outcome(U.str2bool, v)
    ctx.assert_(st == "err" and isinstance(got, ValueError), "no flag out of numbers")
    st, got = ctx.outcome(U.obj2bool, v)
    ctx.assert_(st == "ok" and bool(got) == (v != 0), "truth of numbers")


def cases_u01(tier):
    q = tier == "quick"
    out = [("nontext_flags", {}), ("bytes_flags", {}), ("int_flags", {})]
    for n in range(5 if q else 8):
        out.append(("flags", dict(n=n)))
    for n in range(4, 8 if q else 11):
        out.append(("flags", dict(n=n, alph="falsetruyonFALSETRUYON0 \t")))
    return out


# ---------------------------------------------------------------- U02
def is_upper(c):
    return "A" <= c <= "Z"


def ref_snake(s):
    out = ""
    last = ""
    for c in s:
        if is_upper(c):
            if last and ("a" <= last <= "z" or "0" <= last <= "9"):
                out = out + "_"
            out = out + "abcdefghijklmnopqrstuvwxyz"[ord(c) - 65]
        else:
            out = out + c
        last = c
    return out


def camel(ctx, n, alph=ANY):
    s = ctx.str("s", n, alph)
    got = U.camel_to_snake_case(s)
    cmd = U.camel_to_cmd_name(s)
    ctx.observe(got, cmd)
    want = ref_snake(s)
    ctx.assert_(got == want, "snake case")
    ctx.assert_(U.camel_to_snake_case(got) == got, "snake case again")
    wcmd = ""
    for c in want:
        wcmd = wcmd + ("-" if c == "_" else c)
    ctx.assert_(cmd == wcmd, "command name")
    ctx.assert_(U.camel_to_cmd_name(cmd) == cmd, "command name again")
    ctx.reach("separated" if len(want) > n else "lowered")


def cases_u02(tier):
    q = tier == "quick"
    return [("camel", dict(n=n)) for n in range(4 if q else 6)] + [
        ("camel", dict(n=n, alph="aZ0_- ")) for n in range(5, 7 if q else 9)]


# ---------------------------------------------------------------- U03
VALUES = [None, 12, -1.5, "", "x y", "= %s", ("a", 1), ["b"], {"k": 1}]


def pairs(ctx, keys, indent):
    items = []
    want = []
    for i, n in enumerate(keys):
        k = ctx.str("k%d" % i, n, "a %=é")
        if ctx.bool("free%d" % i):
            v = text = ctx.str("v%d" % i, 2, "a %=")
        else:
            v = ctx.choice("v%d_" % i, VALUES)
            text = str(v)
        items.append((k, v))
        width = indent
        while width < n:
            width += indent
        want.append(k + " " * (width - n) + " = " + text)
    if ctx.bool("a tuple"):
        items = tuple(items)
    got = U.format_pairs(items, indent)
    ctx.observe(got)
    ctx.assert_(got == "\n".join(want), "the listing")
    if indent == 16:
        ctx.assert_(U.format_pairs(items) == got, "16 by default")
    ctx.reach("%d pairs" % len(keys))


def cases_u03(tier):
    q = tier == "quick"
    out = [("pairs", dict(keys=[], indent=4))]
    for indent in (1, 2, 3, 5, 7, 8, 16) if q else range(1, 33):
        for n in sorted({0, 1, indent - 1, indent, indent + 1, 2 * indent - 1, 2 * indent, 2 * indent + 1, 3 * indent + 1}):
            out.append(("pairs", dict(keys=[n], indent=indent)))
        out.append(("pairs", dict(keys=[1, indent + 1], indent=indent)))
    out.append(("pairs", dict(keys=[2, 0, 3], indent=2)))
    return out


# ---------------------------------------------------------------- U04
class Log:
    def __init__(self):
        self.got = []

    def log(self, level, msg, *args, **kw):
        self.got.append((level, msg, args))

    def isEnabledFor(self, level):
        return True


def ref_logged(t):
    for e in ("\r\n", "\n\r", "\n"):
        if len(t) >= len(e) and t[len(t) - len(e):] == e:
            return t[:len(t) - len(e)]
    return t


def writes(ctx, lens, alph):
    log = Log()
    level = ctx.choice("level", [10, 20, 40])
    w = U.LoggerWriter(log, level)
    want = []
    for i, n in enumerate(lens):
        t = ctx.str("t%d" % i, n, alph)
        w.write(t)
        if ctx.bool("flush%d" % i):
            w.flush()
        line = ref_logged(t)
        if line:
            want.append(line)
            ctx.reach("logged")
        else:
            ctx.reach("nothing")
    ctx.observe([g[1] for g in log.got])
    ctx.assert_(len(log.got) == len(want), "logged once")
    for g, t in zip(log.got, want):
        ctx.assert_(g[1] == t, "the text logged")
        ctx.assert_(g[0] == level and not g[2], "the level")


def printed(ctx, n, alph):
    """Through print(), which writes the text and its end separately."""
    log = Log()
    w = U.LoggerWriter(log, 30)
    t = ctx.str("t", n, alph)
    for part in (t, "\n"):
        w.write(part)
    ctx.assert_(len(log.got) == (1 if ref_logged(t) else 0), "a print is logged once")


def cases_u04(tier):
    q = tier == "quick"
    out = []
    for n in range(6 if q else 9):
        out.append(("writes", dict(lens=[n], alph="a\r\n%")))
        out.append(("printed", dict(n=n, alph="a\r\n%")))
    for n in range(4 if q else 6):
        out.append(("writes", dict(lens=[n], alph=ANY)))
    for a in range(4):
        for b in range(3 if q else 4):
            out.append(("writes", dict(lens=[a, b], alph="a\r\n")))
    out.append(("writes", dict(lens=[1, 2, 1], alph="a\r\n")))
    return out


# ---------------------------------------------------------------- U05
def ext_of(name):
    """The extension of a path, of `/`-separated parts, with its dot."""
    base = name
    for i in range(len(name)):
        if name[i] == "/":
            base = name[i + 1:]
    cut = -1
    for i in range(len(base)):
        if base[i] == ".":
            cut = i
    lead = 0
    while lead < len(base) and base[lead] == ".":
        lead += 1
    return base[cut:] if cut >= lead else ""


def fold(s):
    out = ""
    for c in s:
        out = out + ("abcdefghijklmnopqrstuvwxyz"[ord(c) - 65] if is_upper(c) else c)
    return out


REGEXES = {
    r"\.xl\w{1,2}": lambda e: len(e) in (4, 5) and e[:3] == ".xl" and all([c not in "./" for c in e[3:]]),
    r"\.(a|b)": lambda e: e == ".a" or e == ".b",
    r"\.a.?": lambda e: len(e) in (2, 3) and e[:2] == ".a",
    r"\.\d+": lambda e: len(e) > 1 and e[0] == "." and all(["0" <= c <= "9" for c in e[1:]]),
    "": lambda e: e == "",
}


def extension(ctx, n, exts, alph, regexes=None):
    name = ctx.str("name", n, alph)
    es = []
    for i, k in enumerate(exts):
        e = ctx.str("ext%d" % i, k, "aB+")
        es.append("." + e if ctx.bool("dot%d" % i) else e)
    file_ext = fold(ext_of(name))
    want = name
    if regexes is None:
        got = U.ensure_file_ext(name, *es)
        ends = any([file_ext == fold(e if e[0] == "." else "." + e) for e in es])
    else:
        got = U.ensure_file_ext(name, es[0], *regexes, is_regex=True)
        e = es[0]
        ends = file_ext == fold(e if e[0] == "." else "." + e) or any([REGEXES[r](file_ext) for r in regexes])
    ctx.observe(got)
    if not ends:
        e = es[0]
        want = (name[:-1] if name[-1] == "." else name) + "." + (e[1:] if e[0] == "." else e)
        ctx.reach("appended")
    else:
        ctx.reach("kept")
    ctx.assert_(got == want, "the file name")


def cases_u05(tier):
    q = tier == "quick"
    out = []
    for n in range(1, 6 if q else 7):
        for k in (1, 2, 3):
            if q and n + k > 7:
                continue
            out.append(("extension", dict(n=n, exts=[k], alph="aA.b/+" if n < 5 else "aB.")))
        out.append(("extension", dict(n=n, exts=[1, 1] if n < 4 else [1, 2], alph="aB.")))
    out.append(("extension", dict(n=4, exts=[2, 1, 1], alph="aB.")))
    for r in REGEXES:
        for n in (1, 2, 3, 4, 5, 6):
            if q and n > 5:
                continue
            out.append(("extension", dict(n=n, exts=[1], regexes=[r], alph=".xlXa" if "x" in r else ".aB1")))
    out.append(("extension", dict(n=4, exts=[2], regexes=[r"\.(a|b)", r"\.\d+"], alph=".aB1")))
    return out


# ---------------------------------------------------------------- a simulated file-system
def status(kind):
    return os.stat_result([kind | 0o755] + [0] * 9)


def absent(path):
    return FileNotFoundError(errno.ENOENT, "absent", path)


class Files:
    """Existence of the listed files is unknown; there are no others."""

    def __init__(self, ctx, names):
        self.ctx = ctx
        self.bits = [(f, ctx.bool("there%d" % i)) for i, f in enumerate(names)]
        self.kind = ctx.choice("kind", [stat.S_IFREG, stat.S_IFDIR, stat.S_IFIFO, stat.S_IFLNK])
        self.looked = 0

    def exists(self, path):
        path = os.fspath(path)
        for f, b in self.bits:
            if path == f:
                return bool(b)
        return False

    def stat(self, path, *args, **kw):
        self.looked += 1
        if self.exists(path):
            return status(stat.S_IFREG if self.kind == stat.S_IFLNK else self.kind)
        raise absent("a file")

    def lstat(self, path, *args, **kw):
        return status(self.kind) if self.exists(path) else self.stat(path)

    def access(self, path, mode=0, *args, **kw):
        return self.exists(path)

    def patched(self):
        return Patched(os, stat=self.stat, lstat=self.lstat, access=self.access)


# ---------------------------------------------------------------- U06
def numbered(name, n):
    e = ext_of(name)
    root = name[:len(name) - len(e)]
    return [name] + [root + str(i) + e for i in range(1, n)]


def unique(ctx, n, alph, k, dirname=""):
    name = dirname + ctx.str("name", n, alph)
    cands = numbered(name, k + 1)
    fs = Files(ctx, cands[:k])
    with fs.patched():
        got = U.make_unique_filename(name)
    ctx.observe(got)
    free = 0
    while free < k and bool(fs.bits[free][1]):
        free += 1
    ctx.assert_(got == cands[free], "the first free name")
    ctx.reach("free" if free == 0 else "numbered")


def custom(ctx, n, k):
    name = ctx.str("name", n, "a.b")
    asked = []

    def gen(f):
        asked.append(f)
        for i in range(k + 1):
            yield "%s~%d" % (f, i)
        raise AssertionError("no more names")

    fs = Files(ctx, [name + "~" + str(i) for i in range(k)] + [name])
    with fs.patched():
        got = U.make_unique_filename(name, gen)
    ctx.assert_(len(asked) == 1 and asked[0] == name, "asked for names of the file")
    free = 0
    while free < k and bool(fs.bits[free][1]):
        free += 1
    ctx.assert_(got == name + "~" + str(free), "the first free name of the generator")
    ctx.reach("custom")


def cases_u06(tier):
    q = tier == "quick"
    out = []
    for n in range(1, 5 if q else 7):
        out.append(("unique", dict(n=n, alph="a./1 %", k=3)) if n < 4 else ("unique", dict(n=n, alph="a.1%", k=3)))
        out.append(("unique", dict(n=n, alph="a.", k=2, dirname="/d.e/")))
    out.append(("unique", dict(n=2, alph="a.", k=12 if q else 40)))
    for k in (0, 1, 3):
        out.append(("custom", dict(n=2, k=k)))
    return out


# ---------------------------------------------------------------- U07
def ref_normal(path):
    """The location that a POSIX path denotes."""
    if path == "":
        return "."
    lead = 0
    while lead < len(path) and path[lead] == "/":
        lead += 1
    root = "" if lead == 0 else "//" if lead == 2 else "/"
    names = []
    word = ""
    for c in path + "/":
        if c != "/":
            word = word + c
            continue
        if word == "" or word == ".":
            pass
        elif word != "..":
            names.append(word)
        elif names and names[-1] != "..":
            names.pop()
        elif not root:
            names.append(word)
        word = ""
    return root + "/".join(names) or "."


def ref_dir(path, norm, seps="/"):
    """The slash kept at the end."""
    n = len(path)
    while n and path[n - 1] in seps:
        n -= 1
    if 0 < n < len(path) and norm[-1] != seps[-1]:
        norm = norm + seps[-1]
    return norm


def normal(ctx, n, alph):
    p = ctx.str("p", n, alph)
    got = U.normpath(p)
    ctx.observe(got)
    want = ref_dir(p, ref_normal(p))
    ctx.assert_(got == want, "the normal path")
    ctx.assert_(U.normpath(got) == got, "normal again")
    ctx.assert_(U.convpath(p, abs_path=False, exp_user=False, exp_vars=False) == want, "no conversions")
    ctx.reach("a directory" if want[-1] == "/" else "a file")


CWDS = ["/", "/c/d", "/c.d/.e", "//n/d"]


def absolute(ctx, n, alph):
    p = ctx.str("p", n, alph)
    cwd = ctx.choice("cwd", CWDS)
    with Patched(os, getcwd=lambda: cwd):
        got = U.abspath(p)
        again = U.abspath(got)
        conv = U.convpath(p, exp_user=False, exp_vars=False)
    ctx.observe(got)
    full = p if p[:1] == "/" else (cwd + p if cwd[-1] == "/" else cwd + "/" + p)
    want = ref_dir(p, ref_normal(full))
    ctx.assert_(got == want, "the absolute path")
    ctx.assert_(again == got, "absolute again")
    ctx.assert_(conv == want, "converted")
    ctx.reach("absolute")


VARS = {"V": "x/y", "W": "/r/", "E": "", "VV": "..", "HOME": "/h"}


def expanded(ctx, n, alph, home="/h"):
    p = ctx.str("p", n, alph)
    us, vs, ab = ctx.bool("exp_user"), ctx.bool("exp_vars"), ctx.bool("abs_path")
    with Patched(os, environ=dict(VARS, HOME=home), getcwd=lambda: "/c"):
        got = U.convpath(p, ab, us, vs)
        want = p
        if us:
            want = posixpath.expanduser(want)
        if vs:
            want = posixpath.expandvars(want)
    ctx.observe(got)
    full = want
    if ab and want[:1] != "/":
        full = "/c/" + want
    ctx.assert_(got == ref_dir(want, ref_normal(full)), "the converted path")
    ctx.reach("converted")


def normal_nt(ctx, n, alph, pre=""):
    p = pre + ctx.str("p", n, alph)
    with on_nt():
        got = UNT.normpath(p)
        again = UNT.normpath(got)
        want = ntpath.normpath(p)
    ctx.observe(got)
    ctx.assert_(got == ref_dir(p, want, "/\\"), "the normal path on Windows")
    ctx.assert_(again == got, "normal again on Windows")
    ctx.reach("windows")


def unc_share(ctx, n, alph):
    """`$\\` of Windows shares is not a variable."""
    tail = ctx.str("p", n, alph)
    p = "\\\\s\\v$\\" + tail
    with on_nt(), Patched(os, environ={"V": "x", "": "bad"}):
        got = UNT.convpath(p, abs_path=False, exp_user=False)
        want = ntpath.normpath("\\\\s\\v$\\" + ntpath.expandvars(tail))
    ctx.observe(got)
    ctx.assert_(got == ref_dir(p, want, "/\\"), "the share is kept")


def cases_u07(tier):
    q = tier == "quick"
    out = []
    for n in range(7 if q else 9):
        out.append(("normal", dict(n=n, alph="./a" if n > 4 else "./a ~$")))
    for n in range(5 if q else 7):
        out.append(("absolute", dict(n=n, alph="./a")))
    for n in range(4 if q else 5):
        out.append(("expanded", dict(n=n, alph="~/$VE{}a")))
    out.append(("expanded", dict(n=4, alph="$V/~")))
    out.append(("expanded", dict(n=3, alph=" /a\t\n~")))
    out.append(("expanded", dict(n=5 if q else 6, alph="$V/" if q else "$V/W")))
    for home in ("/", "/h/", "/h/..", ""):
        out.append(("expanded", dict(n=3, alph="~/a", home=home)))
    for n in range(5 if q else 7):
        out.append(("normal_nt", dict(n=n, alph="./\\a")))
        out.append(("normal_nt", dict(n=n, alph=".\\a" if n > 3 else "./\\a", pre="c:")))
    for n in range(3 if q else 4):
        out.append(("normal_nt", dict(n=n, alph="./\\a", pre="\\\\s\\t")))
        out.append(("unc_share", dict(n=n, alph="$V\\a.")))
    return out


# ---------------------------------------------------------------- U08
URL_SAFE = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789_.-~/%"
UNC = "\\\\?\\"


def url_trip(ctx, n, alph, pre="", post=""):
    p = pre + ctx.str("p", n, alph) + post
    if p and p[-1] == "\\":
        return  # a directory for the code everywhere
    u = U.path2urlpath(p)
    ctx.observe(u)
    ctx.assert_(ctx.all([ctx.any([c == d for d in URL_SAFE]) for c in u]), "an url-path")
    ctx.assert_(U.urlpath2path(u) == p, "back to the path")
    ctx.assert_((p[-1:] == "/") == (u[-1:] == "/"), "the last slash")
    ctx.assert_(U.path2urlpath(UNC + p) == u, "without the long-path prefix")
    ctx.reach("trip")


def url_trip_nt(ctx, n, alph, pre, k=0):
    """On Windows; `k` fixed characters more."""
    s = ctx.str("p", n, alph)
    for a, b in zip(s, s[1:]):
        ctx.assume(not (a == "\\" and b == "\\"))
    if pre[-1] == "\\" and s:
        ctx.assume(s[0] != "\\")
    p = pre + "d" * k + s if k else pre + s
    with on_nt(), Patched(urllib.request, pathname2url=nturl2path.pathname2url, url2pathname=nturl2path.url2pathname):
        u = UNT.path2urlpath(p)
        back = UNT.urlpath2path(u)
        ctx.assert_(UNT.path2urlpath(UNC + p) == u, "without the long-path prefix")
        ctx.assert_(UNT.path2urlpath(back) == u, "and to the url again")
    ctx.observe(u, back)
    ctx.assert_((p[-1] == "\\") == (u[-1] == "/"), "the last slash on Windows")
    ctx.assert_(ctx.all([ctx.any([c == d for d in URL_SAFE + ":"]) for c in u]), "an url-path")
    ctx.assert_(back == (UNC + p if len(p) > 200 else p), "back to the path on Windows")
    ctx.reach("long path" if len(p) > 200 else "short path")


def url_long(ctx, n, k):
    p = "/" + "d" * k + ctx.str("p", n, "/ %a")
    ctx.assert_(U.urlpath2path(U.path2urlpath(p)) == p, "back to a long path")


def local_url(ctx, n, alph, cwd="/c d"):
    p = ctx.str("p", n, alph)
    with Patched(os, getcwd=lambda: cwd):
        u = U.path2url(p)
    ctx.observe(u)
    if n == 0:
        ctx.assert_(u == "", "nothing out of nothing")
        return
    if p[:2] == "//" or p[:2] == "/." and "//" in p:
        return  # a host, sometimes only for the library's urljoin()
    full = p if p[0] == "/" else cwd + "/" + p
    want = ref_normal(full)
    if p[-1] == "/" or p == "." or p == ".." or p[-2:] == "/." or p[-3:] == "/..":
        if want[-1] != "/":
            want = want + "/"
    want = want.replace(" ", "%20")
    if "//" in p:  # two leading slashes may come out, as POSIX allows
        ctx.assert_(u == "file://" + want or u == "file:///" + want, "the url of a local path with double slashes")
    else:
        ctx.assert_(u == "file://" + want, "the url of a local path")
    with Patched(os, getcwd=lambda: cwd):
        ctx.assert_(U.path2url(u) == u, "urls of files pass through")
    ctx.reach("local")


def remote_url(ctx, n, alph, host, tail=""):
    p = ctx.str("p", n, alph)
    if n:
        p = "/" + p
    u = U.path2url(host + p + tail)
    ctx.observe(u)
    if n == 0:
        ctx.assert_(u == host + tail, "without a path")
        return
    want = ref_normal(p)
    if p[-1] == "/" and want[-1] != "/":
        want = want + "/"
    ctx.assert_(u == host + want + tail, "the path of a remote url")
    ctx.assert_(U.path2url(u) == u, "normal urls pass through")
    ctx.reach("remote")


def drive_url(ctx, n, alph):
    """Drives (of Windows) are never schemes; relative ones are made absolute."""
    d = ctx.str("d", 1, "cZ")
    p = ctx.str("p", n, alph)
    full = p if p[:1] == "/" else "/" + p
    want = ref_dir("/" + d + ":" + full, ref_normal("/" + d + ":" + full))
    u = U.path2url(d + ":" + p)
    ctx.observe(u)
    ctx.assert_(u == "file://" + want, "the url of a path with drive")
    ctx.assert_(U.path2url(d + ":" + p.replace("/", "\\")) == u, "with either slash")
    if all([c != "." for c in p]):
        ctx.assert_(U.path2url(UNC + d + ":/" + p) == U.path2url(d + ":/" + p), "without the long-path prefix")
    ctx.reach("drive")


def expanded_url(ctx, n, alph):
    p = ctx.str("p", n, alph)
    us, vs = ctx.bool("expanduser"), ctx.bool("expandvars")
    with Patched(os, environ=dict(VARS), getcwd=lambda: "/c"):
        u = U.path2url(p, vs, us)
        q = p
        if vs:
            q = posixpath.expandvars(q)
        if us:
            q = posixpath.expanduser(q)
        ctx.assert_(u == U.path2url(q), "expanded before")
    ctx.reach("expanded")


def cases_u08(tier):
    q = tier == "quick"
    out = []
    for n in range(4 if q else 6):
        out.append(("url_trip", dict(n=n, alph=ANY[1:])))
    for n in range(4, 6 if q else 8):
        out.append(("url_trip", dict(n=n, alph="a/% ~\\" if n < 7 else "/% a")))
    for n in (0, 1, 2):
        out.append(("url_trip", dict(n=n, alph="a/", pre="a" + UNC)))
        out.append(("url_trip", dict(n=n, alph="a/\\", post="/" + UNC + "a")))
    out.append(("url_trip", dict(n=2, alph=tuple(range(1, 0x250)) if not q else tuple(range(0x20, 0x100)))))
    for n in range(4 if q else 6):
        for pre in ("c:", "C:\\", "C:\\a", "a", "\\\\s\\t", "..\\"):
            out.append(("url_trip_nt", dict(n=n, alph="\\a% " if n > 2 else "\\a% .;#~", pre="C:\\" if pre == "c:" else pre)))
    for k in (193, 194, 195, 196, 197):
        out.append(("url_trip_nt", dict(n=2, alph="\\a%", pre="C:\\", k=k)))
    for k in (198, 199, 200, 300):
        out.append(("url_long", dict(n=2, k=k)))
    for n in range(6 if q else 8):
        out.append(("local_url", dict(n=n, alph="./a")))
        out.append(("remote_url", dict(n=n, alph="./a", host="http://h")))
        if n < 5:
            out.append(("drive_url", dict(n=n, alph="/a.")))
    for host, tail in (("https://u@h:80", "?q=a//b"), ("ftp://h.x", "#f/../g"), ("http://h", "?a#b")):
        for n in (0, 2, 3):
            out.append(("remote_url", dict(n=n, alph="./a", host=host, tail=tail)))
    for n in range(1, 4 if q else 5):
        out.append(("expanded_url", dict(n=n, alph="~/$Va")))
    return out


# ---------------------------------------------------------------- U09
STATES = ["dir", "absent", "file", "link", "orphan"]  # `orphan`: its parent is missing as well


class World:
    def __init__(self, ctx, first, changes, faults):
        self.ctx, self.state, self.changes, self.faults = ctx, first, changes, faults
        self.k = 0
        self.changed = False
        self.fault = None
        self.seen = None
        self.made = []

    def tick(self):
        self.k += 1
        if self.changes > 0 and self.k <= 8:
            new = self.ctx.choice("env%d" % self.k, ["same"] + STATES)
            if new != "same":
                self.changes -= 1
                self.changed = True
                self.state = new

    def stat(self, path, *args, follow_symlinks=True, **kw):
        path = str(os.fspath(path)).rstrip("/")
        self.tick()
        if path == "/w/p":
            if self.state == "orphan":
                raise absent(path)
            return status(stat.S_IFDIR)
        if path != "/w/p/t":
            return status(stat.S_IFDIR)
        self.seen = self.state
        if self.state == "dir":
            return status(stat.S_IFDIR)
        if self.state == "file":
            return status(stat.S_IFREG)
        if self.state == "link" and not follow_symlinks:
            return status(stat.S_IFLNK)
        raise absent(path)

    def lstat(self, path, *args, **kw):
        return self.stat(path, follow_symlinks=False)

    def mkdir(self, path, mode=0o777, *args, **kw):
        path = str(os.fspath(path)).rstrip("/")
        self.tick()
        if self.faults and self.fault is None and self.ctx.bool("fault%d" % self.k):
            self.fault = self.ctx.choice("errno", [errno.EACCES, errno.ENOSPC, errno.EROFS, errno.ELOOP, errno.EINTR])
            raise OSError(self.fault, "fault", path)
        if path == "/w/p":
            if self.state != "orphan":
                raise FileExistsError(errno.EEXIST, "exists", path)
            self.state = "absent"
            return
        self.seen = self.state
        if self.state == "orphan":
            raise absent(path)
        if self.state != "absent":
            raise FileExistsError(errno.EEXIST, "exists", path)
        self.state = self.seen = "dir"
        self.made.append(mode)

    def forbidden(self, *args, **kw):
        self.ctx.fail("nothing is ever removed")

    def patched(self):
        return Patched(os, stat=self.stat, lstat=self.lstat, mkdir=self.mkdir, rmdir=self.forbidden,
                       remove=self.forbidden, unlink=self.forbidden, rename=self.forbidden, replace=self.forbidden)


def ensure_dir(ctx, first, changes, faults, slash):
    w = World(ctx, first, changes, faults)
    mode = ctx.choice("mode", [None, 0o700, 0o777])
    path = "/w/p/t" + slash
    with w.patched():
        if mode is None:
            st, got = ctx.outcome(U.ensure_dir_exists, path)
        else:
            st, got = ctx.outcome(U.ensure_dir_exists, path, mode)
    ctx.observe(st, got if st == "ok" else got.errno, w.made)
    quiet = not w.changed and w.fault is None
    if st == "ok":
        ctx.assert_(w.seen == "dir", "there was a directory at the last look")
        ctx.reach("ensured")
    else:
        ctx.assert_(isinstance(got, OSError), "reported as an error of the system")
        ctx.assert_(not quiet or first in ("file", "link"), "no error in normal conditions")
        if w.fault is not None:
            ctx.assert_(got.errno == w.fault, "the failure reported")
            ctx.reach("fault")
        ctx.reach("refused")
    if quiet:
        ctx.assert_((st == "ok") == (first not in ("file", "link")), "ensured in normal conditions")
        ctx.assert_(len(w.made) == (1 if first in ("absent", "orphan") else 0), "made only when missing")
    for m in w.made:
        ctx.assert_(m == (0o755 if mode is None else mode), "its mode")


def cases_u09(tier):
    q = tier == "quick"
    out = []
    for first in STATES:
        for faults in (0, 1):
            for slash in ("", "/"):
                out.append(("ensure_dir", dict(first=first, changes=2 if q else 5, faults=faults, slash=slash)))
    return out


# ---------------------------------------------------------------- U10
class Programs:
    """Which paths are files, and which may be executed, is unknown, of the listed ones."""

    def __init__(self, ctx, paths):
        self.paths = []
        for i, p in enumerate(paths):
            self.paths.append((p, ctx.bool("file%d" % i), ctx.bool("exec%d" % i)))

    def find(self, path):
        path = os.fspath(path)
        for p, f, x in self.paths:
            if path == p:
                return f, x
        return None

    def stat(self, path, *args, **kw):
        b = self.find(path)
        if b is None:
            raise absent("a program")
        return status(stat.S_IFREG if b[0] else stat.S_IFDIR)

    def access(self, path, mode, *args, **kw):
        b = self.find(path)
        return b is not None and (mode != os.X_OK or bool(b[1]))

    def runs(self, path):
        b = self.find(path)
        return b is not None and bool(b[0]) and bool(b[1])

    def patched(self):
        return Patched(os, stat=self.stat, lstat=self.stat, access=self.access)


SUFFIXES = ["", ".bat", ".com", ".exe"]


def ref_where(progs, folders, program, sep, nt):
    out = []
    for f in folders:
        if not f:
            continue
        base = f + program if f[-1] in ("/", sep) else f + sep + program
        for s in SUFFIXES:
            p = base + s
            if nt and not any([fold(p[-4:]) == e for e in SUFFIXES[1:]]):
                continue
            if progs.runs(p):
                out.append(p)
    return out


def unquote(f):
    while f and f[0] == '"':
        f = f[1:]
    while f and f[-1] == '"':
        f = f[:-1]
    return f


def search(ctx, folders, program="p", nt=False, given=True, listed=None):
    mod, sep, psep = (UNT, "\\", ";") if nt else (U, "/", ":")
    listed = SUFFIXES if listed is None else listed
    bases = []
    for f in folders:
        f = unquote(f)
        if f:
            b = f + program if f[-1] in ("/", sep) else f + sep + program
            if b not in bases:
                bases.append(b)
    # Without folder, the current one would be searched.
    here = [program + (".exe" if nt else "")] if "" in folders else []
    progs = Programs(ctx, [b + s for b in bases for s in listed] + here)
    text = psep.join(folders)
    env = Patched(os, environ={"PATH": "/else" if given else text})
    with progs.patched(), env:
        if nt:
            with on_nt():
                got = mod.py_where(program, text) if given else mod.py_where(program)
        else:
            got = mod.py_where(program, text) if given else mod.py_where(program)
    ctx.observe(got)
    want = ref_where(progs, [unquote(f) for f in folders], program, sep, nt)
    ctx.assert_(list(got) == want, "the programs in order")
    ctx.reach("found" if want else "none")
    ctx.reach("windows" if nt else "posix")


def search_text(ctx, n, alph, listed=("a/p", "b/p", "a/p.exe", "p")):
    """Any text as search path."""
    text = ctx.str("path", n, alph)
    progs = Programs(ctx, listed)
    with progs.patched(), Patched(os, environ={"PATH": "b"}):
        got = U.py_where("p", text)
    folders = [""]
    for c in (text if n else "b"):
        if c == ":":
            folders.append("")
        else:
            folders[-1] = folders[-1] + c
    want = ref_where(progs, [unquote(f) for f in folders], "p", "/", False)
    ctx.assert_(list(got) == want, "the programs in the folders of the search path")


class Where:
    """The `where` command of the system: missing, failing, or answering a text."""

    outcome = None

    def __init__(self, *args, **kw):
        if self.outcome == "missing":
            raise FileNotFoundError(errno.ENOENT, "where")
        if self.outcome == "denied":
            raise PermissionError(errno.EACCES, "where")
        self.args = args[0] if args else kw.get("args")
        self.returncode = 1 if self.outcome == "failed" else 0
        self.pid = 12345
        self.stdout = self.stdin = self.stderr = None

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def communicate(self, *args, **kw):
        return ("" if self.outcome == "failed" else self.outcome), None

    def poll(self):
        return self.returncode

    def wait(self, *a, **kw):
        return self.returncode

    def kill(self):
        pass


def strip(s):
    while s and s[0] in BLANKS:
        s = s[1:]
    while s and s[-1] in BLANKS:
        s = s[:-1]
    return s


def located(ctx, n):
    how = ctx.choice("how", ["missing", "denied", "failed", "text"])
    text = ctx.str("text", n, "a \n\r") if how == "text" else how

    class Cmd(Where):
        outcome = text

    progs = Programs(ctx, ["/f/p", "/g/p", "/g/p.exe"])
    with progs.patched(), Patched(os, environ={"PATH": "/g:/f"}), Patched(subprocess, Popen=Cmd):
        got = U.where("p")
        one = U.which("p")
    if how == "text":
        want = [""]
        for c in text:
            if c == "\n":
                want.append("")
            else:
                want[-1] = want[-1] + c
        want = [strip(s) for s in want if strip(s)]
        ctx.reach("by the system")
    elif how == "failed":
        want = []
        ctx.reach("not found by the system")
    else:
        want = ref_where(progs, ["/g", "/f"], "p", "/", False)
        ctx.reach("searched")
    ctx.observe(list(got or []), one)
    ctx.assert_(list(got or []) == want, "the programs located")
    ctx.assert_(one == want[0] if want else one is None, "the first of them")


def cases_u10(tier):
    q = tier == "quick"
    out = []
    sets = [["/f"], ["/f", "/g"], ["", "/f"], ['"/f"', "/g"], ["/f/"], ["/g", "", "/f"], ["/f", "/f"], ["f", "."], []]
    for fs in sets:
        two = len([f for f in fs if f]) > 1
        out.append(("search", dict(folders=fs, listed=["", ".exe"] if two else None)))
        out.append(("search", dict(folders=fs, listed=[".bat", ".com"] if two else None, program="q.x", given=False)))
        nfs = [f.replace("/", "c:\\") for f in fs]
        out.append(("search", dict(folders=nfs, nt=True, listed=["", ".exe"] if two else None)))
    for program in ("p.exe", "pcom", "p.BAT", "p.txt"):
        out.append(("search", dict(folders=["c:\\f"], nt=True, program=program)))
        out.append(("search", dict(folders=["/f"], program=program)))
    if not q:
        for fs in sets:
            if len([f for f in fs if f]) > 1:
                out.append(("search", dict(folders=fs)))
                out.append(("search", dict(folders=[f.replace("/", "c:\\") for f in fs], nt=True)))
        out.append(("search", dict(folders=["/f", "/g", "/h"], listed=["", ".exe"])))
    for n in range(6 if q else 7):
        out.append(("search_text", dict(n=n, alph='a:"b')))
        if n < 5:
            out.append(("search_text", dict(n=n, alph="a: ", listed=["a/p", " a/p", "a /p", " /p"])))
    for n in range(5 if q else 7):
        out.append(("located", dict(n=n)))
    return out



# ---------------------------------------------------------------- U11
def ref_first(t):
    line = ""
    for c in t + "\n":
        if c == "\n":
            if strip(line):
                return strip(line)
            line = ""
        else:
            line += c
    return None


def first(ctx, n, alph):
    t = ctx.str("t", n, alph)
    got, want = U.first_line(t), ref_first(t)
    ctx.observe(got)
    if want is None:
        ctx.assert_(got is None, "blank texts have no line")
        ctx.reach("blank")
    else:
        ctx.assert_(got == want, "the first line that is not blank, stripped")
        ctx.reach("line")


def listed_as(ctx, n, k):
    """Of up to `k` texts of up to `n` characters each."""
    import collections

    count = ctx.int("count", 0, k + 1)
    items = [ctx.str("t%d" % i, n, "ab") for i in range(k)]
    items = [x for i, x in enumerate(items) if i < count]
    kind = ctx.choice("kind", ("list", "tuple", "deque", "userlist", "nested", "text", "set", "dict", "none", "int", "obj", "iter", "keys"))
    one = object()
    if kind in ("list", "tuple", "deque", "userlist", "nested"):
        make = {"list": list, "tuple": tuple, "deque": collections.deque, "userlist": collections.UserList, "nested": lambda x: [tuple(x)]}[kind]
        o = make(items)
        want = [o[0]] if kind == "nested" else items
        got = U.as_list(o)
        ctx.assert_(type(got) is list and len(got) == len(want), "a list of the same items")
        ctx.assert_(all([a is b or a == b for a, b in zip(got, want)]), "in the same order")
        got.append(one)
        ctx.assert_(len(o) == len(want) and (kind == "nested" or all([a is b or a == b for a, b in zip(o, items)])), "that is another list")
        ctx.reach("many" if len(items) > 1 else "few")
    else:
        o = {"text": "".join(items), "set": {1, 2}, "dict": {1: 2}, "none": None, "int": ctx.int("i", -3, 4), "obj": one, "iter": iter([1, 2]),
             "keys": {1: 2}.keys()}[kind]
        got = U.as_list(o)
        ctx.assert_(type(got) is list and len(got) == 1 and (got[0] is o or got[0] == o), "a list of itself")
        ctx.reach("single")


def cases_u11(tier):
    q = tier == "quick"
    out = [("first", dict(n=n, alph="a \n")) for n in range(7 if q else 10)]
    out += [("first", dict(n=n, alph=ANY)) for n in range(4 if q else 6)]
    out += [("listed_as", dict(n=n, k=k)) for n, k in ((1, 3), (2, 2))]
    return out

PROPERTIES = {
    "U01": {
        "cases": cases_u01,
        "bounds": {"quick": "every ASCII text of <=4 characters; <=7 over the letters of the words and blanks; 17 other "
                            "values, bytes and the integers -1000..1000",
                   "thorough": "every ASCII text of <=7; <=10 over the letters of the words"},
        "outside": ["byte strings given to the text parser", "characters beyond ASCII"],
        "oracle": "character-wise comparison with the words after dropping blanks",
        "must_reach": ["true", "false", "other values"],
        "budget": {"quick": 90, "thorough": 400},
    },
    "U02": {
        "cases": cases_u02,
        "bounds": {"quick": "every ASCII text of <=3 characters, <=6 over letter/digit classes",
                   "thorough": "every ASCII text of <=5, <=8 over the classes"},
        "outside": ["characters beyond ASCII"],
        "oracle": "a character-wise transcription",
        "must_reach": ["separated", "lowered"],
        "budget": {"quick": 90, "thorough": 400},
    },
    "U03": {
        "cases": cases_u03,
        "bounds": {"quick": "indents 1, 2, 3, 5, 7, 8, 16; keys around the multiples up to 3 indents+1, of any of `a %=é`; "
                            "<=3 pairs; texts of 2 characters or 9 other values",
                   "thorough": "every indent 1..32"},
        "outside": ["values with line breaks"],
        "oracle": "the smallest positive multiple of the indent that holds the key",
        "must_reach": ["0 pairs", "1 pairs", "2 pairs", "3 pairs"],
        "budget": {"quick": 90, "thorough": 400},
    },
    "U04": {
        "cases": cases_u04,
        "bounds": {"quick": "writes of <=5 characters over `a % CR LF`, <=3 of any ASCII, up to 3 writes",
                   "thorough": "<=8 characters, <=5 of any ASCII"},
        "oracle": "the text without the first of CR-LF, LF-CR, LF that ends it",
        "stubs": ["the logger records its calls"],
        "must_reach": ["logged", "nothing"],
        "budget": {"quick": 90, "thorough": 400},
    },
    "U05": {
        "cases": cases_u05,
        "bounds": {"quick": "names of 1..5 characters, 1-3 extensions of <=3 characters with or without dot, 5 regexes",
                   "thorough": "names of 1..6 characters"},
        "outside": ["extensions with inner dots", "empty names or extensions", "names with line breaks", "other regexes"],
        "oracle": "own splitting of the extension, case folding, matchers for the regexes",
        "must_reach": ["appended", "kept"],
        "budget": {"quick": 200, "thorough": 600},
    },
    "U06": {
        "cases": cases_u06,
        "bounds": {"quick": "names of 1..4 characters; any 3 of the candidates exist or not, 12 for two-character names",
                   "thorough": "names of 1..6 characters; 40 candidates"},
        "outside": ["files made between the test and the return"],
        "oracle": "the candidates in order, the first that does not exist",
        "stubs": ["os.stat, os.lstat, os.access answer from symbolic bits"],
        "must_reach": ["free", "numbered", "custom"],
        "budget": {"quick": 90, "thorough": 400},
    },
    "U07": {
        "cases": cases_u07,
        "bounds": {"quick": "paths of <=6 characters over `. / a` (<=4 with blanks, `~`, `$`); expansions of <=5; on "
                            "(simulated) Windows <=4 after 3 prefixes",
                   "thorough": "<=8; expansions of <=6; Windows <=6"},
        "outside": ["backslashes on POSIX, which the code takes for separators on all platforms"],
        "oracle": "own walker over POSIX paths; the library's expansions and Windows normalisation",
        "stubs": ["os.getcwd and os.environ are fixed; Windows is simulated with ntpath"],
        "must_reach": ["a directory", "a file", "absolute", "converted", "windows"],
        "budget": {"quick": 120, "thorough": 600},
    },
    "U08": {
        "cases": cases_u08,
        "bounds": {"quick": "every path of <=3 ASCII characters, <=5 over `a / % blank ~ backslash`, 2 characters of "
                            "Latin-1; on (simulated) Windows <=3 after 5 prefixes and lengths around 200; URLs with "
                            "paths of <=5 over `. / a`",
                   "thorough": "<=5 ASCII characters; Windows <=5; URLs <=7"},
        "outside": ["paths ending with backslash on POSIX", "drive letters in lower case and repeated separators on Windows "
                    "(the library normalises them)", "local paths like `/.//a` for path2url() (urljoin of the library takes them for hosts)", "characters special to URLs in the paths of path2url()"],
        "oracle": "the round trip; an own walker for the paths of URLs",
        "stubs": ["os.getcwd and os.environ are fixed; Windows is simulated with ntpath and nturl2path"],
        "must_reach": ["trip", "long path", "short path", "local", "remote", "drive", "expanded"],
        "budget": {"quick": 200, "thorough": 600},
    },
    "U09": {
        "cases": cases_u09,
        "bounds": {"quick": "5 initial states; any 2 changes by others to any of the states, at any system call; any one "
                            "fault of 5 at any creation; 3 modes",
                   "thorough": "any 5 changes"},
        "oracle": "what the last system call on the target has seen",
        "stubs": ["os.stat, os.lstat and os.mkdir act on a simulated directory and parent"],
        "must_reach": ["ensured", "refused", "fault"],
        "budget": {"quick": 120, "thorough": 600},
    },
    "U10": {
        "cases": cases_u10,
        "bounds": {"quick": "9 lists of <=3 folders on POSIX and (simulated) Windows, any of the <=8 candidates being files "
                            "or executable or not; any search path of <=5 characters; any output of <=4 characters of the "
                            "`where` command, or its failure",
                   "thorough": "all 4 suffixes in 2 folders; search paths of <=6, outputs of <=6"},
        "oracle": "folders in order, and for each the name and then its Windows extensions",
        "stubs": ["os.stat, os.access, os.environ, and the process of the `where` command"],
        "must_reach": ["found", "none", "windows", "posix", "by the system", "not found by the system", "searched"],
        "budget": {"quick": 120, "thorough": 600},
    },
    "U11": {
        "cases": cases_u11,
        "bounds": {"quick": "texts of <=6 characters over `a`, blank and line-feed, <=3 of any ASCII; collections of up to 3 texts and 8 kinds of other values",
                   "thorough": "<=9 and <=5 characters"},
        "outside": ["characters beyond ASCII"],
        "oracle": "a character-wise split and strip; the items as given",
        "must_reach": ["blank", "line", "many", "few", "single"],
        "budget": {"quick": 90, "thorough": 400},
    },
}
