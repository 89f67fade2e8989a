"""Setup: the tools are there, and the string/regex/int models agree with CPython on all paths of small cases."""
import itertools
import os
import re
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from symx import canon, fp, models, nparr, pathmodels  # noqa: E402,F401
from symx.ctx import ConcreteCtx, SymCtx  # noqa: E402
from symx.engine import Engine, Signal  # noqa: E402
from symx.values import eval_model  # noqa: E402
from symx.models import call  # noqa: E402

ALPH = "aB1 _-/.\n~"


def t_methods(ctx, c, n):
    s = ctx.str("s", n, ALPH)
    t = ctx.str("t", 1, "a/1 ")
    out = []
    for name in ("upper", "lower", "strip", "lstrip", "rstrip", "isdigit", "isalpha", "isspace",
                 "isupper", "islower", "split", "splitlines", "title", "swapcase", "capitalize"):
        out.append(c(getattr(s, name)))
    for name in ("split", "rsplit", "partition", "rpartition", "find", "rfind", "count",
                 "startswith", "endswith", "strip", "join"):
        out.append(c(getattr(s, name), t))
    out.append(c(s.replace, t, "xy"))
    out.append(s + t)
    out.append(s < t)
    out.append(s[1:])
    out.append(c(repr, s))
    out.append(c("{}|{:>4}|{!r}".format, s, t, t))
    return out


def t_int(ctx, c):
    x = ctx.int("x", -25, 25)
    y = ctx.int("y", 1, 7)
    return [x // y, x % y, x // -3, x % -3, -x, abs(x), x < y, c(str, x), c("%s:%d".__mod__, (x, y)),
            c(int, c(str, x)) == x, c(min, x, y), c(max, (x, y, 3)), [10, 20, 30, 40, 50, 60, 70, 80][y]]


def t_parseint(ctx, c, n):
    s = ctx.str("s", n, "01 -+_x")
    try:
        return c(int, s)
    except ValueError:
        return "bad"


REGS = [r"^\s*(\w+)(?:-(\d))?$", r"(?<=[a-z0-9])([A-Z]+)", r"[^/\\][/\\]$", r"(a|B)*?1", r"(.)\1",
        r"^([a-z]):(/)?(.*)$", r"a??|\d+", r"\b1", r"x*", r"(?!a).B"]


def t_regex(ctx, c, i, n):
    p = re.compile(REGS[i], re.I if i % 2 else 0)
    s = ctx.str("s", n, "aB1 -/\n:")
    out = []
    for name in ("match", "search", "fullmatch"):
        m = c(getattr(p, name), s)
        out.append(m and [m.span(), m.groups()])
    out.append(c(p.findall, s))
    out.append(c(p.split, s))
    out.append(c(p.sub, "<\\g<0>>", s))
    return out


def t_paths(ctx, c, n):
    import posixpath as P
    import urllib.parse as U
    import urllib.request as R

    s = ctx.str("s", n, "./a~\\")
    out = [c(P.normpath, s), c(P.join, s, "b"), c(P.split, s), c(P.splitext, s), c(P.isabs, s), c(P.basename, s),
           c(P.dirname, s), c(P.join, "b", s)]
    import ntpath as N

    if n < 4:
        out += [c(N.normpath, s), c(N.splitdrive, s), c(N.split, s), c(N.join, "c:\\x", s)]
    return out


def t_urls(ctx, c, n):
    import urllib.parse as U
    import urllib.request as R
    import nturl2path as N

    s = ctx.str("s", n, "%aC3/ ~é")
    out = [c(U.quote, s), c(U.unquote, s), c(R.pathname2url, s), c(R.url2pathname, s), c(U.unquote, c(U.quote, s)) == s]
    return out


def t_join(ctx, c, n):
    import urllib.parse as U

    s = ctx.str("s", n, "./a:?#;")
    return [c(U.urljoin, "file:///b/c/", s), c(U.urljoin, "http://h/b", s), tuple(c(U.urlsplit, "http://h" + s))]


def run(fn, **kw):
    eng = Engine(seed=1)
    n = bad = 0
    while True:
        eng.path_reset()
        Engine.current = eng
        try:
            out = fn(SymCtx(eng), call, **kw)
            m = eng.get_model()
            inputs = {k: eval_model(v, m) for k, v in eng.inputs.items()}
            got = canon.canon(eval_model(out, m))
            Engine.current = None
            want = canon.canon(fn(ConcreteCtx(inputs), lambda f, *a: f(*a), **kw))
            n += 1
            if got != want:
                bad += 1
                print("MISMATCH", fn.__name__, kw, inputs, [
                    (i, a, b) for i, (a, b) in enumerate(zip(got, want)) if a != b] if isinstance(
                        got, list) else (got, want))
        finally:
            Engine.current = None
        if bad > 3 or n > 3000 or not eng.backtrack():
            return n, bad


def t_qp(ctx, c, n, k):
    """The transcriptions of `binascii`'s quoted-printable functions, against them."""
    import binascii
    from harness import h_codec

    s = ctx.str("s", n, "\r\n =.a\t\x80F3") + "a" * k + ctx.str("t", 2 if k else 0, "\r\n =.\x80")
    if isinstance(ctx, SymCtx):
        return [c(h_codec.b2a_qp, s, *a) for a in ((), (False, False), (True, True))] + [c(h_codec.a2b_qp, s)]
    b = s.encode("latin-1")
    return [binascii.b2a_qp(b, *a).decode("latin-1") for a in ((), (False, False), (True, True))] + [
        binascii.a2b_qp(b).decode("latin-1")]


def main():
    tot = badt = 0
    jobs = [(t_int, {})] + [(t_methods, {"n": n}) for n in (0, 1, 2)] + [
        (t_parseint, {"n": n}) for n in (0, 1, 2, 3)] + [
        (t_regex, {"i": i, "n": n}) for i in range(len(REGS)) for n in (0, 1, 2, 3)]
    jobs += [(t_paths, {"n": n}) for n in range(5)] + [(t_urls, {"n": n}) for n in range(5)]
    jobs += [(t_join, {"n": n}) for n in range(4)]
    jobs += [(t_qp, {"n": n, "k": 0}) for n in range(4)] + [(t_qp, {"n": 0, "k": k}) for k in range(72, 79)]
    for f, kw in jobs:
        n, b = run(f, **kw)
        tot += n
        badt += b
    print("symx self-test: %d paths compared with CPython, %d mismatches" % (tot, badt))
    sys.exit(1 if badt else 0)


if __name__ == "__main__":
    main()
