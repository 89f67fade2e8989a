"""Property id -> harness module."""
import ast
import glob
import os

HARNESS = {}
for _p in sorted(glob.glob(os.path.join(os.path.dirname(os.path.abspath(__file__)), "h_*.py"))):
    with open(_p) as _f:
        _t = ast.parse(_f.read())
    for _n in _t.body:
        if isinstance(_n, ast.Assign) and getattr(_n.targets[0], "id", "") == "PROPERTIES":
            for _k in _n.value.keys:
                HARNESS[_k.value] = os.path.basename(_p)[:-3]
