"""Backtracking regex matcher over symbolic strings, from CPython's own parse tree.

Every character test is one merged condition over the character's code point;
the matcher explores alternatives in exactly sre's order, so the first success
is the match `re` would return.
"""
import re
from re import _constants as K
from re import _parser

from .values import (
    SymStr, _eqc, _in_codes, _tc, conc, cur, lift, mkstr, or_any, z3, UNIVERSE,
)

_set_cache = {}


def _codes(op, av, flags):
    """Exact set of universe code points accepted by a one-character item."""
    ascii_only = not cur().nonascii
    key = (op, repr(av), flags & (re.I | re.A | re.S), ascii_only)
    r = _set_cache.get(key)
    if r is None:
        sub = _parser.SubPattern(_parser.State())
        sub.state.flags = flags
        sub.append((op, av))
        from re import _compiler

        pat = _compiler.compile(sub, flags & ~re.X)
        u = range(128) if ascii_only else UNIVERSE
        r = tuple(c for c in u if pat.match(chr(c)))
        _set_cache[key] = r
    return r


ONE = (K.LITERAL, K.NOT_LITERAL, K.ANY, K.IN, K.RANGE)


class SymMatch:
    def __init__(self, pat, s, groups, lo, hi, pos=0):
        self.re = pat
        self.string = s
        self._g = groups
        self._lo, self._hi = lo, hi
        self.pos = pos
        self.endpos = len(s)

    @property
    def __class__(self):
        return re.Match

    def _idx(self, g):
        if isinstance(g, str):
            g = conc(g)
            try:
                return self.re.groupindex[g]
            except KeyError:
                raise IndexError("no such group")
        g = g.__index__()
        if not 0 <= g <= self.re.groups:
            raise IndexError("no such group")
        return g

    def span(self, g=0):
        g = self._idx(g)
        if g == 0:
            return self._lo, self._hi
        return self._g.get(g, (-1, -1))

    def start(self, g=0):
        return self.span(g)[0]

    def end(self, g=0):
        return self.span(g)[1]

    def _one(self, g, default=None):
        a, b = self.span(g)
        return default if a < 0 else self.string[a:b]

    def group(self, *gs):
        if not gs:
            return self._one(0)
        if len(gs) == 1:
            return self._one(gs[0])
        return tuple(self._one(g) for g in gs)

    def __getitem__(self, g):
        return self._one(g)

    def groups(self, default=None):
        return tuple(self._one(i, default) for i in range(1, self.re.groups + 1))

    def groupdict(self, default=None):
        return {k: self._one(i, default) for k, i in self.re.groupindex.items()}

    @property
    def lastindex(self):
        return max((g for g in self._g), default=None)

    def expand(self, template):
        return _expand(self, template)

    def __bool__(self):
        return True


def _expand(m, template):
    tpl = _parser.parse_template(conc(template), m.re)
    out = []
    for x in tpl:
        if isinstance(x, str):
            out += map(ord, x)
        elif x is not None:
            v = m._one(x)
            if v is not None:
                out += lift(v).cs
    return mkstr(out)


class Matcher:
    def __init__(self, pat):
        self.pat = pat
        self.tree = _parser.parse(pat.pattern, pat.flags & ~re.U if isinstance(
            pat.pattern, str) else pat.flags)
        self.flags = pat.flags

    # continuation-passing: m(items, i, pos, groups, k) -> result of k or None
    def seq(self, items, j, i, g, fl, k):
        cur().tick()
        if j >= len(items):
            return k(i, g)
        op, av = items[j]
        cs = self.cs
        n = len(cs)
        nxt = lambda i2, g2: self.seq(items, j + 1, i2, g2, fl, k)
        if op in ONE:
            if i >= n:
                return None
            if _tc(self.test(op, av, cs[i], fl)):
                return nxt(i + 1, g)
            return None
        if op is K.AT:
            if self.at(av, i, fl):
                return nxt(i, g)
            return None
        if op is K.BRANCH:
            for alt in av[1]:
                r = self.seq(alt, 0, i, g, fl, nxt)
                if r is not None:
                    return r
            return None
        if op is K.SUBPATTERN:
            gid, add, dele, p = av
            f2 = (fl | add) & ~dele
            if gid is None:
                return self.seq(p, 0, i, g, f2, nxt)

            def close(i2, g2):
                g3 = dict(g2)
                g3[gid] = (i, i2)
                return nxt(i2, g3)

            return self.seq(p, 0, i, g, f2, close)
        if op is K.MAX_REPEAT or op is K.MIN_REPEAT:
            lo, hi, p = av
            return self.rep(op is K.MAX_REPEAT, lo, hi, p, i, g, fl, nxt)
        if op is K.POSSESSIVE_REPEAT or op is K.ATOMIC_GROUP:
            if op is K.ATOMIC_GROUP:
                r = self.seq(av, 0, i, g, fl, lambda i2, g2: (i2, g2))
            else:
                lo, hi, p = av
                r = self.rep(True, lo, hi, p, i, g, fl, lambda i2, g2: (i2, g2))
            return None if r is None else nxt(*r)
        if op is K.ASSERT or op is K.ASSERT_NOT:
            d, p = av
            if d > 0:
                r = self.seq(p, 0, i, g, fl, lambda i2, g2: (i2, g2))
            else:
                lo, _ = p.getwidth()
                r = None
                if i - lo >= 0:
                    r = self.seq(p, 0, i - lo, g, fl,
                                 lambda i2, g2: (i2, g2) if i2 == i else None)
            if op is K.ASSERT:
                return None if r is None else nxt(i, r[1])
            return nxt(i, g) if r is None else None
        if op is K.GROUPREF:
            if av not in g:
                return None
            a, b = g[av]
            if i + b - a > n:
                return None
            for x, y in zip(cs[a:b], cs[i:i + b - a]):
                if fl & re.I:
                    from .values import _lower_delta

                    x, y = _lower_delta(x)[0], _lower_delta(y)[0]
                if not _tc(_eqc(x, y)):
                    return None
            return nxt(i + b - a, g)
        if op is K.GROUPREF_EXISTS:
            gid, yes, no = av
            return self.seq(yes if gid in g else (no or []), 0, i, g, fl, nxt)
        raise NotImplementedError("regex op %s" % op)

    def rep(self, greedy, lo, hi, p, i, g, fl, k):
        single = len(p) == 1 and p[0][0] in ONE
        cs = self.cs
        if single:
            op, av = p[0]
            mx = len(cs) - i if hi is K.MAXREPEAT else min(hi, len(cs) - i)
            c = 0
            if greedy:
                while c < mx and _tc(self.test(op, av, cs[i + c], fl)):
                    c += 1
                while c >= lo:
                    r = k(i + c, g)
                    if r is not None:
                        return r
                    c -= 1
                return None
            while c < lo:
                if c >= mx or not _tc(self.test(op, av, cs[i + c], fl)):
                    return None
                c += 1
            while True:
                r = k(i + c, g)
                if r is not None:
                    return r
                if c >= mx or not _tc(self.test(op, av, cs[i + c], fl)):
                    return None
                c += 1

        def step(cnt, i1, g1):
            def more():
                if hi is not K.MAXREPEAT and cnt >= hi:
                    return None
                return self.seq(
                    p, 0, i1, g1, fl,
                    lambda i2, g2: None if i2 == i1 and cnt >= lo else step(cnt + 1, i2, g2))

            if cnt < lo:
                return more()
            if greedy:
                r = more()
                return r if r is not None else k(i1, g1)
            r = k(i1, g1)
            return r if r is not None else more()

        return step(0, i, g)

    def test(self, op, av, c, fl):
        if type(c) is int:
            key = ("1", op, repr(av), fl, c)
            r = _set_cache.get(key)
            if r is None:
                sub = _parser.SubPattern(_parser.State())
                sub.state.flags = fl
                sub.append((op, av))
                from re import _compiler

                r = bool(_compiler.compile(sub, fl & ~re.X).match(chr(c)))
                _set_cache[key] = r
            return r
        return _in_codes(c, _codes(op, av, fl))

    def at(self, av, i, fl):
        cs = self.cs
        n = len(cs)
        if av is K.AT_BEGINNING_STRING or (av is K.AT_BEGINNING and not fl & re.M):
            return i == 0
        if av is K.AT_BEGINNING:
            return i == 0 or _tc(_eqc(cs[i - 1], 10))
        if av is K.AT_END_STRING:
            return i == n
        if av is K.AT_END:
            if i == n:
                return True
            if fl & re.M:
                return _tc(_eqc(cs[i], 10))
            return i == n - 1 and _tc(_eqc(cs[i], 10))
        if av in (K.AT_BOUNDARY, K.AT_NON_BOUNDARY):
            w = lambda j: 0 <= j < n and _tc(self.test(
                K.IN, [(K.CATEGORY, K.CATEGORY_WORD)], cs[j], fl))
            b = w(i - 1) != w(i)
            return b if av is K.AT_BOUNDARY else not b
        raise NotImplementedError("regex at %s" % av)

    def run(self, s, pos, full=False, advance=False):
        self.cs = lift(s).cs
        n = len(self.cs)

        def k(i, g):
            if full and i != n or advance and i == pos:
                return None
            return (i, g)

        r = self.seq(self.tree, 0, pos, {}, self.flags, k)
        if r is None:
            return None
        return SymMatch(self.pat, s, r[1], pos, r[0])


_matchers = {}


def matcher(pat):
    m = _matchers.get(pat)
    if m is None:
        m = _matchers[pat] = Matcher(pat)
    return m


def _span(s, pos, endpos):
    n = len(s)
    pos = max(0, min(pos, n))
    if endpos is not None and endpos < n:
        s = s[:endpos]
    return s, pos


def p_match(pat, string, pos=0, endpos=None):
    s, pos = _span(string, pos, endpos)
    return matcher(pat).run(s, pos)


def p_fullmatch(pat, string, pos=0, endpos=None):
    s, pos = _span(string, pos, endpos)
    return matcher(pat).run(s, pos, True)


def p_search(pat, string, pos=0, endpos=None):
    s, pos = _span(string, pos, endpos)
    mt = matcher(pat)
    for i in range(pos, len(s) + 1):
        m = mt.run(s, i)
        if m is not None:
            return m
    return None


def p_finditer(pat, string, pos=0, endpos=None):
    s, i = _span(string, pos, endpos)
    mt = matcher(pat)
    advance = False
    while i <= len(s):
        m = mt.run(s, i, advance=advance)
        if m is None:
            i += 1
            advance = False
            continue
        yield m
        advance = m._hi == m._lo
        i = m._hi


def p_findall(pat, string, pos=0, endpos=None):
    out = []
    for m in p_finditer(pat, string, pos, endpos):
        if pat.groups == 0:
            out.append(m.group())
        elif pat.groups == 1:
            out.append(m._one(1, ""))
        else:
            out.append(m.groups(""))
    return out


def p_sub(pat, repl, string, count=0):
    return p_subn(pat, repl, string, count)[0]


def p_subn(pat, repl, string, count=0):
    out, last, n = [], 0, 0
    for m in p_finditer(pat, string):
        if count and n >= count:
            break
        out += lift(string[last:m._lo]).cs
        if isinstance(repl, str):
            out += lift(_expand(m, repl)).cs
        else:
            out += lift(repl(m)).cs
        last = m._hi
        n += 1
    out += lift(string[last:]).cs
    return mkstr(out), n


def p_split(pat, string, maxsplit=0):
    out, last, n = [], 0, 0
    for m in p_finditer(pat, string):
        if maxsplit and n >= maxsplit:
            break
        out.append(string[last:m._lo])
        out.extend(m.groups())
        last = m._hi
        n += 1
    out.append(string[last:])
    return out


METHODS = dict(match=p_match, fullmatch=p_fullmatch, search=p_search, finditer=p_finditer,
               findall=p_findall, sub=p_sub, subn=p_subn, split=p_split)
