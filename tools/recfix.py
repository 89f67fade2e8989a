"""recfix.py PID COMMIT: records a fix: commit in known-findings.json."""
import json, subprocess, sys
k = json.load(open("/verif/known-findings.json"))
for a in sys.argv[1:]:
    pid, c = a.split(":")
    m = subprocess.check_output(["git", "-C", "/repo", "log", "-1", "--format=%h %s", c], text=True).strip()
    h, s = m.split(" ", 1)
    line = "fixed: property=%s %s %s" % (pid, h, s.replace("fix: ", "", 1))
    if line not in k["fixed"]:
        k["fixed"].append(line)
json.dump(k, open("/verif/known-findings.json", "w"), indent=1, ensure_ascii=False)
open("/verif/known-findings.json", "a").write("\n")
