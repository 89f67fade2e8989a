#!/bin/bash
# tools/plant.sh ID...: checks planted bugs in scratch copies (tests pass, demo discriminates, check catches).
cd "$(dirname "$0")/.."
for id in "$@"; do
    d=$PWD/seeded/$id; w=$(mktemp -d /tmp/plant.XXXXXX)
    cp -a /repo/. "$w"
    pid=$(/opt/venv/bin/python -c "import json,sys; print(json.load(open('$d/meta.json'))['property'])")
    if ! git -C "$w" apply "$d/patch.diff"; then echo "$id: PATCH DOES NOT APPLY"; rm -rf "$w"; continue; fi
    (cd "$w"; PYTHONPATH=$w /opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=300 --continue-on-collection-errors -o junit_family=xunit2 --junitxml="$w/junit.xml" >/dev/null 2>&1)
    python3 /opt/vp/results.py "$w/o.json" "junit:$w/junit.xml"
    t=$(python3 -c "
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); p=set(json.load(open('$w/o.json'))['passed'])
print('pass' if b<=p else 'BROKEN:%d %s'%(len(b-p), sorted(b-p)[:2]))")
    (cd /repo; timeout 300 bash "$d/demo.sh" >/tmp/demo.$id.base 2>&1); r0=$?
    (cd "$w"; timeout 300 bash "$d/demo.sh" >/tmp/demo.$id.bug 2>&1); r1=$?
    c=$(SYMX_REPO=$w timeout 900 /opt/venv/bin/python -W ignore run.py $pid quick 2>/dev/null | grep -c "^VIOLATION property=$pid")
    echo "$id ($pid): tests $t; demo base=$r0 bug=$r1 $([ $r0 = 0 -a $r1 != 0 ] && echo OK || echo BAD); caught=$c"
    rm -rf "$w"
done
