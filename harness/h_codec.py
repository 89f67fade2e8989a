"""The JSON codec of arbitrary objects."""
import binascii
import json
import pickle
from json.decoder import JSONDecoder
from json.encoder import JSONEncoder

from harness.h_utils import Patched
from pandalone.pandata import JSONCodec

SYMBOLIC = False


def symbolic_setup():
    """Not called when replaying: the real libraries are used then."""
    global SYMBOLIC
    SYMBOLIC = True
    from symx import values

    values.ENCODED = Bytes


# ---------------------------------------------------------------- transcriptions of the C-code of CPython
HEX = "0123456789ABCDEF"


def hexed(c):
    v = ord(c)
    return "=" + HEX[v // 16] + HEX[v % 16]


def b2a_qp(data, quotetabs=False, istext=True, header=False):
    nl = data.find("\n")
    eol = "\r\n" if nl > 0 and data[nl - 1] == "\r" else "\n"
    out, linelen, i, n = "", 0, 0, len(data)
    while i < n:
        c = data[i]
        nxt = data[i + 1] if i + 1 < n else None
        v = ord(c)
        if (v > 126 or c == "=" or header and c == "_"
                or c == "." and linelen == 0 and (nxt is None or nxt == "\n" or nxt == "\r" or nxt == "\0")
                or not istext and (c == "\r" or c == "\n")
                or (c == "\t" or c == " ") and nxt is None
                or v < 33 and c != "\r" and c != "\n" and (quotetabs or c != "\t" and c != " ")):
            if linelen + 3 >= 76:
                out += "=" + eol
                linelen = 0
            out += hexed(c)
            i += 1
            linelen += 3
        elif istext and (c == "\n" or c == "\r" and nxt is not None and nxt == "\n"):
            linelen = 0
            if out and (out[-1] == " " or out[-1] == "\t"):
                out = out[:-1] + hexed(out[-1])
            out += eol
            i += 2 if c == "\r" else 1
        else:
            if nxt is not None and nxt != "\n" and linelen + 1 >= 76:
                out += "=" + eol
                linelen = 0
            linelen += 1
            out += "_" if header and c == " " else c
            i += 1
    return out


def digit(c):
    for i, h in enumerate("0123456789abcdef"):
        if c == h or c == h.upper():
            return i
    return None


def a2b_qp(data, header=False):
    out, i, n = "", 0, len(data)
    while i < n:
        c = data[i]
        if c == "=":
            i += 1
            if i >= n:
                break
            c = data[i]
            if c == "\n" or c == "\r":
                while i < n and data[i] != "\n":
                    i += 1
                i += 1
            elif c == "=":
                out += "="
                i += 1
            else:
                a = digit(c)
                b = digit(data[i + 1]) if i + 1 < n else None
                if a is not None and b is not None:
                    out += chr(a * 16 + b)
                    i += 2
                else:
                    out += "="
        else:
            out += " " if header and c == "_" else c
            i += 1
    return out


class Bytes:
    """Stands for the bytes whose values are the codes of a text."""

    def __init__(self, text, encoding="latin-1"):
        self.text = text

    def decode(self, encoding="utf-8", errors="strict"):
        if encoding.lower().replace("_", "-") in ("latin-1", "latin1", "iso-8859-1"):
            return self.text
        for c in self.text:
            if ord(c) > 127:
                raise UnicodeDecodeError(encoding, b"", 0, 1, "beyond ASCII")
        return self.text


def stub_b2a(data, quotetabs=False, istext=True, header=False):
    return Bytes(b2a_qp(data.text, quotetabs, istext, header))


def stub_a2b(data, header=False):
    return Bytes(a2b_qp(data if isinstance(data, str) else data.text if isinstance(data, Bytes) else data.decode("latin-1"), header))


class Json:
    """A JSON text: the value it was written from."""

    def __init__(self, value):
        self.value = value


def copied(v):
    if isinstance(v, dict):
        return {k: copied(x) for k, x in v.items()}
    if isinstance(v, list):
        return [copied(x) for x in v]
    return v


class Opaque:
    """Any object."""


class Codec:
    """The libraries, with objects pickling into the bytes given."""

    def __init__(self, obj, data):
        self.obj, self.data, self.loaded = obj, data, []
        self.patches = [Patched(pickle, dumps=self.dumps, loads=self.loads)]
        if SYMBOLIC:
            self.patches += [Patched(binascii, b2a_qp=stub_b2a, a2b_qp=stub_a2b),
                             Patched(JSONEncoder, encode=lambda enc, v: Json(copied(v))),
                             Patched(JSONDecoder, decode=lambda dec, s: copied(s.value))]

    def dumps(self, obj, *args, **kw):
        return Bytes(self.data) if SYMBOLIC else self.data.encode("latin-1")

    def loads(self, data, *args, **kw):
        self.loaded.append(data.text if SYMBOLIC else data.decode("latin-1"))
        return self.obj

    def __enter__(self):
        for p in self.patches:
            p.__enter__()
        return self

    def __exit__(self, *a):
        for p in self.patches:
            p.__exit__(*a)


def pickled(ctx, n, alph, k, fill="a"):
    """Any bytes that an object pickles into."""
    data = ctx.str("before", n, alph) + fill * k + (ctx.str("after", n, alph) if k else "")
    obj = Opaque()
    with Codec(obj, data) as lib:
        st, text = ctx.outcome(JSONCodec.Encoder().encode, obj)
        ctx.assert_(st == "ok", "encoded")
        st, back = ctx.outcome(JSONCodec.Decoder().decode, text)
    ctx.observe(st, lib.loaded)
    ctx.assert_(st == "ok", "decoded")
    ctx.assert_(len(lib.loaded) == 1, "unpickled once")
    ctx.assert_(lib.loaded[0] == data, "the bytes that were pickled")
    ctx.assert_(back is obj, "the object")
    ctx.reach("round trip")
    if k:
        ctx.reach("long")


PLAIN = [None, True, 0, 1.5, "", "text", [], [1, "a"], {}, {"a": 1}, {"a": {"$qpickle": "x"}}, {"_ver": "0"}]


def plain(ctx):
    """JSON texts not made by the encoder are decoded as such."""
    doc = ctx.choice("doc", PLAIN)
    text = Json(doc) if SYMBOLIC else json.dumps(doc)
    with Codec(None, "") as lib:
        st, got = ctx.outcome(JSONCodec.Decoder().decode, text)
    ctx.assert_(st == "ok", "decoded")
    ctx.assert_(type(got) is type(doc) and got == doc, "as it is")
    ctx.assert_(not lib.loaded, "not unpickled")
    ctx.reach("plain")


def cases_d09(tier):
    q = tier == "quick"
    out = [("plain", {})]
    every = tuple(range(256))
    for n in range(1, 3 if q else 4):
        out.append(("pickled", dict(n=n, alph=every, k=0)))
    for n in range(3, 6 if q else 7):
        out.append(("pickled", dict(n=n, alph="\r\n =.a", k=0)))
    for k in range(70, 79):
        for fill in "a\x80" if not q or k > 74 else "a":
            out.append(("pickled", dict(n=1 if q else 2, alph="\r\n =.a\x80", k=k if fill == "a" else k // 3, fill=fill)))
    return out


PROPERTIES = {
    "D09": {
        "cases": cases_d09,
        "bounds": {"quick": "objects that pickle into any 1-2 bytes, any <=5 bytes over `CR LF blank = . a`, and any bytes of 7 "
                            "around fillings as long as an encoded line; 12 other JSON documents",
                   "thorough": "any 3 bytes, <=6 over the special ones, pairs around the fillings"},
        "outside": ["that unpickling gives back an equal object (decided by the library)", "longer pickles"],
        "oracle": "the bytes handed to the unpickler",
        "stubs": ["pickling is opaque", "binascii's quoted-printable functions are transcribed from the C-code of CPython "
                  "(compared with them in the setup)", "the JSON texts of the library are opaque"],
        "must_reach": ["round trip", "long", "plain"],
        "budget": {"quick": 200, "thorough": 600},
    },
}
