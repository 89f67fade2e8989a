"""Plain import of pandalone (from REPO) and of a harness file: no instrumentation, no solver."""
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys
import types

REPO = os.environ.get("SYMX_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path=None, target=None):
        if fullname != "pandalone" and not fullname.startswith("pandalone."):
            return None
        base = os.path.join(REPO, *fullname.split("."))
        pk = os.path.join(base, "__init__.py")
        if os.path.exists(pk):
            return importlib.util.spec_from_file_location(
                fullname, pk, submodule_search_locations=[base])
        if os.path.exists(base + ".py"):
            return importlib.util.spec_from_file_location(fullname, base + ".py")
        return None


def load_plain(harness):
    sys.dont_write_bytecode = True
    sys.meta_path.insert(0, Finder())
    path = os.path.join(VERIF, "harness", harness + ".py")
    with open(path) as f:
        src = f.read()
    mod = types.ModuleType("_symx_harness")
    mod.__file__ = path
    sys.modules["_symx_harness"] = mod
    exec(compile(src, path, "exec"), mod.__dict__)
    return mod
