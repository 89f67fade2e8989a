"""Canonical JSON-able form of observed values, equal for symbolic-evaluated and concrete runs."""


def canon(o):
    if isinstance(o, BaseException):
        return "<exc %s>" % type(o).__name__
    if isinstance(o, bool) or o is None:
        return o
    if hasattr(o, "dtype"):
        if getattr(o, "shape", None) == ():
            return canon(o.item())
        return canon(o.tolist())
    if isinstance(o, int):
        return int(o)
    if isinstance(o, float):
        return o.hex()
    if isinstance(o, str):
        return str.__str__(o)
    if isinstance(o, dict):
        return {"d": sorted(([canon(k), canon(v)] for k, v in o.items()), key=repr)}
    if isinstance(o, (set, frozenset)):
        return {"s": sorted((canon(x) for x in o), key=repr)}
    if isinstance(o, (list, tuple)):
        return [canon(x) for x in o]
    if isinstance(o, type):
        return "<type %s>" % o.__name__
    return "<%s>" % type(o).__name__
