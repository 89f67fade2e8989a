#!/usr/bin/env python3
"""cover.py FILE...: the lines inside functions of /repo/pandalone that no symbolic path ran (files written by runs with SYMX_COV=FILE)."""
import ast, os, sys
REPO = os.environ.get("SYMX_REPO", "/repo")
hit = {}
for p in sys.argv[1:]:
    for l in open(p):
        f, _, n = l.strip().rpartition(":")
        hit.setdefault(f, set()).add(int(n))
tot = miss = 0
for d, _, fs in sorted(os.walk(os.path.join(REPO, "pandalone"))):
    for f in sorted(fs):
        if not f.endswith(".py"):
            continue
        path = os.path.join(d, f)
        src = open(path).read()
        rel = os.path.relpath(path, REPO)
        want = set()
        for fn in ast.walk(ast.parse(src)):
            if isinstance(fn, (ast.FunctionDef, ast.AsyncFunctionDef)):
                for st in fn.body:
                    for n in ast.walk(st):
                        if isinstance(n, ast.stmt) and not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
                            want.add(n.lineno)
        gone = sorted(want - hit.get(rel, set()))
        tot += len(want); miss += len(gone)
        print("%s: %d statements, %d not run" % (rel, len(want), len(gone)))
        ls = src.splitlines()
        for n in gone:
            print("    %4d %s" % (n, ls[n - 1].rstrip()))
print("%d of %d statements run" % (tot - miss, tot))
