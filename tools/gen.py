#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below and the harnesses present."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from harness.index import HARNESS  # noqa: E402
from tools.props import NA, PROPS  # noqa: E402

TECH = "symbolic execution of the real Python source, every path and assertion decided by z3"
NOTE = ("Bounded: every value inside the stated bounds (evidence/{id}.json: bounds, outside_bounds) is decided "
        "by the solver on paths of the real functions; counterexamples are replayed on the un-instrumented code. "
        "Trusts the symx models of CPython built-ins (cross-checked on path models each run) and z3.{extra}")


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in PROPS:
            q = dict(p)
            q.pop("extra", None)
            f.write(json.dumps(q, ensure_ascii=False) + "\n")
    ids = [p["id"] for p in PROPS]
    assert len(set(ids)) == len(ids)
    assert set(HARNESS) <= set(ids), set(HARNESS) - set(ids)
    checks, na = [], []
    for p in PROPS:
        i = p["id"]
        if i in HARNESS:
            assert i not in NA, i
            checks.append(dict(
                property=i,
                quick_cmd="/opt/venv/bin/python -W ignore run.py %s quick" % i,
                thorough_cmd="/opt/venv/bin/python -W ignore run.py %s thorough" % i,
                evidence_file="evidence/%s.json" % i,
                technique=TECH, level="model_checking",
                level_note=NOTE.format(id=i, extra=" " + p["extra"] if p.get("extra") else "")))
        else:
            na.append(dict(property=i, reason=NA.get(i, "check still under construction")))
    m = dict(version=1, setup_cmd="/opt/venv/bin/python -W ignore -m symx.selftest",
             checks=checks, not_applicable=na,
             notes="No hooks in /repo: the checks rewrite the source in memory while importing it. "
                   "Repaired defects are listed in known-findings.json.")
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1, ensure_ascii=False)
        f.write("\n")
    design(na)
    print(len(checks), "checks,", len(na), "not applicable")


def flat(v):
    return " ".join(str(v).split())


def design(na):
    """DESIGN.md out of its template."""
    import ast
    import glob

    specs = {}
    for path in glob.glob(os.path.join(HERE, "harness", "h_*.py")):
        for node in ast.parse(open(path).read()).body:
            if isinstance(node, ast.Assign) and getattr(node.targets[0], "id", "") == "PROPERTIES":
                for k, v in zip(node.value.keys, node.value.values):
                    specs[k.value] = (os.path.basename(path), {
                        a.value: ast.literal_eval(b) for a, b in zip(v.keys, v.values) if a.value != "cases"})
    costs = json.load(open(os.path.join(HERE, "tools", "costs.json")))
    out = []
    for p in PROPS:
        i = p["id"]
        if i not in specs:
            continue
        h, s = specs[i]
        out.append("### %s. %s\n" % (i, p["title"]))
        out.append(p["statement"] + "\n")
        b = s["bounds"]
        rows = [("Code", ", ".join("`%s`" % f for f in p["anchors"]["files"]) + " -- " + p["anchors"]["mechanism"][0]["name"]),
                ("Harness", "`harness/%s`, `cases_%s`" % (h, i.lower())),
                ("Symbolic", ", ".join(p["quantifier"]["over"])),
                ("Oracle", s["oracle"])]
        rows += [("Bounds", b)] if isinstance(b, str) else [("Bounds, quick", b["quick"]), ("thorough", b["thorough"])]
        for k in ("outside", "stubs", "assumptions"):
            if s.get(k):
                rows.append((k.capitalize(), "; ".join(s[k])))
        rows.append(("Why tests cannot", p["why_tests_cant"]))
        for t in ("quick", "thorough"):
            c = costs.get(i, {}).get(t)
            if c:
                rows.append(("Cost, " + t, c))
        out += ["- %s: %s" % (k, flat(v)) for k, v in rows]
        out.append("")
    known = json.load(open(os.path.join(HERE, "known-findings.json")))
    fixed = []
    for l in known["fixed"]:
        pid, commit, what = l.split("property=", 1)[1].split(" ", 2)
        fixed.append("| %s | %s | %s |" % (pid, commit, what.replace("|", "\\|")))
    bugs = []
    for d in sorted(glob.glob(os.path.join(HERE, "seeded", "*"))):
        m = json.load(open(os.path.join(d, "meta.json")))
        bugs.append("| %s | %s | %s | %s |" % (os.path.basename(d), m["property"], flat(m["what_it_breaks"]), flat(m["needs"])))
    text = open(os.path.join(HERE, "tools", "design.md")).read()
    for k, v in (("NA", "\n".join("- **%s**: %s." % (n["property"], n["reason"]) for n in na)),
                 ("PROPERTIES", "\n".join(out)),
                 ("FIXED", "\n".join(["| property | commit | what failed |", "|---|---|---|"] + fixed)),
                 ("BUGS", "\n".join(["| bug | caught by the check of | breaks | needs |", "|---|---|---|---|"] + bugs))):
        text = text.replace("{{%s}}" % k, v)
    with open(os.path.join(HERE, "DESIGN.md"), "w") as f:
        f.write(text)


if __name__ == "__main__":
    main()
