#!/usr/bin/env python3
"""mkplant.py SPEC.py: writes seeded/<id>/ out of BUGS = [dict(id, property, file, edits=[(old, new)], needs, what, demo)]."""
import json, os, subprocess, sys, tempfile, shutil
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
g = {}
exec(open(sys.argv[1]).read(), g)
only = sys.argv[2:]
base = subprocess.run(["git", "-C", "/repo", "show", "923d68b:pandalone"], capture_output=True)
for b in g["BUGS"]:
    if only and b["id"] not in only:
        continue
    edits = b["edits"] if isinstance(b["edits"], dict) else {b["file"]: b["edits"]}
    d = os.path.join(HERE, "seeded", b["id"])
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp()
    subprocess.run("git -C /repo archive HEAD | tar x -C %s && cd %s && git init -q && git add -Af && git -c user.name=x -c user.email=x commit -qm x" % (w, w), shell=True, check=True)
    for f, es in edits.items():
        p = os.path.join(w, f)
        s = open(p, newline="").read()
        orig = subprocess.run(["git", "-C", "/repo", "show", "923d68b:" + f], capture_output=True, text=True).stdout
        for old, new in es:
            assert s.count(old) == 1, (b["id"], f, s.count(old), old)
            if old not in orig:
                print(b["id"], "NOTE: edited text is not in the base commit")
            s = s.replace(old, new)
        open(p, "w", newline="").write(s)
    diff = subprocess.run(["git", "-C", w, "diff"], capture_output=True, text=True).stdout
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    shutil.rmtree(w)
    open(os.path.join(d, "demo.py"), "w").write(b["demo"].lstrip("\n"))
    open(os.path.join(d, "demo.sh"), "w").write('#!/bin/bash\nPYTHONPATH=$PWD exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
    json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["what"]), open(os.path.join(d, "meta.json"), "w"), indent=1)
    print("wrote", b["id"])
