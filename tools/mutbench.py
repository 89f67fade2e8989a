"""mutbench.py SPEC.py [ids]: scouts edits: do the project's tests pass with them, which checks catch them.
SPEC defines M = [(id, properties, file, old, new), ...]; results are appended to SPEC.out."""
import json, os, shutil, subprocess, sys, tempfile
spec = sys.argv[1]
ns = {}
exec(open(spec).read(), ns)
base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
out = open(spec + ".out", "a")
def say(*a):
    print(*a, flush=True); print(*a, file=out, flush=True)
for mid, pids, f, old, new in ns["M"]:
    if sys.argv[2:] and mid not in sys.argv[2:]:
        continue
    w = tempfile.mkdtemp(prefix="mut.", dir="/tmp")
    try:
        subprocess.check_call(["cp", "-a", "/repo/.", w])
        p = os.path.join(w, f)
        s = open(p).read()
        n = s.count(old)
        if n != 1:
            say(mid, "MATCHES", n); continue
        open(p, "w").write(s.replace(old, new))
        env = dict(os.environ, PYTHONPATH=w)
        subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=300", "--continue-on-collection-errors",
                        "-o", "junit_family=xunit2", "--junitxml=%s/junit.xml" % w], cwd=w, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        subprocess.run(["python3", "/opt/vp/results.py", w + "/o.json", "junit:%s/junit.xml" % w])
        lost = base - set(json.load(open(w + "/o.json"))["passed"])
        if lost:
            say(mid, "tests catch it:", len(lost), sorted(lost)[0][:90]); continue
        res = []
        for pid in pids.split():
            r = subprocess.run(["/opt/venv/bin/python", "-W", "ignore", "/verif/run.py", pid, "quick"], env=dict(os.environ, SYMX_REPO=w),
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=900)
            res.append("%s:%s" % (pid, "caught" if "VIOLATION property=" + pid in r.stdout else "MISSED(rc=%d)" % r.returncode))
            if "caught" in res[-1]:
                break
        say(mid, "survives tests;", *res)
    finally:
        shutil.rmtree(w)
