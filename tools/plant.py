#!/usr/bin/env python3
"""Validate planted bugs and see which checks catch them.

  tools/plant.py new ID PROPERTY         patch.diff := diff of /tmp/w/bug against its HEAD, meta.json from stdin (two lines: needs, what_it_breaks)
  tools/plant.py validate [ID...]        in a scratch copy: applies, stable tests pass, demo 0 without and nonzero with the patch
  tools/plant.py catch [ID...] [-- CHECK...]   apply to /repo, run the check(s), undo
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, "seeded")


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def meta(i):
    return json.load(open(os.path.join(S, i, "meta.json")))


def new(i, prop):
    d = os.path.join(S, i)
    os.makedirs(d, exist_ok=True)
    diff = sh("git -C /tmp/w/bug diff").stdout
    assert diff
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    needs, breaks = [x for x in sys.stdin.read().split("\n") if x.strip()]
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    if not os.path.exists(os.path.join(d, "demo.sh")):
        open(os.path.join(d, "demo.sh"), "w").write('#!/bin/bash\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(os.path.join(d, "demo.sh"), 0o755)


def validate(i):
    d = os.path.join(S, i)
    t = tempfile.mkdtemp(prefix="plant_", dir="/tmp")
    try:
        sh("cp -a /repo %s/r" % t)
        r = t + "/r"
        sh("git -C %s checkout -q -- . && find %s -name __pycache__ -prune -exec rm -r {} +" % (r, r))
        sh("cp -a %s %s/demo" % (d, t))
        a = sh("bash %s/demo/demo.sh" % t, cwd=r)
        p = sh("git apply %s/patch.diff" % d, cwd=r)
        b = sh("bash %s/demo/demo.sh" % t, cwd=r)
        tests = sh("PYTHONPATH=%s /opt/venv/bin/python -m pytest -q -p no:cacheprovider -n 8 tests --ignore tests/test_gsf.py 2>&1 || PYTHONPATH=%s /opt/venv/bin/python -m pytest -q -p no:cacheprovider tests --ignore tests/test_gsf.py 2>&1" % (r, r), cwd=r)
        ok = a.returncode == 0 and p.returncode == 0 and b.returncode != 0 and tests.returncode == 0
        print(("valid  " if ok else "INVALID"), i, "clean", a.returncode, "apply", p.returncode, "patched", b.returncode, "tests", tests.stdout.strip().split("\n")[-1][-60:])
        if a.returncode:
            print(a.stdout[-1500:], a.stderr[-1500:])
        elif not ok:
            print(p.stderr[-800:], b.stdout[-300:], chr(10).join(x for x in tests.stdout.split(chr(10)) if x.startswith(('FAILED', 'SUBFAILED', 'ERROR', 'E  ')))[-900:])
        else:
            print("        ", (b.stderr.strip() or b.stdout.strip()).split("\n")[-1][:150])
        return ok
    finally:
        shutil.rmtree(t)


def note(i, check, caught):
    """Keeps tools/caught.json, from which the table in DESIGN.md is made"""
    p = os.path.join(V, "tools", "caught.json")
    d = json.load(open(p)) if os.path.exists(p) else {}
    e = d.setdefault(i, {})
    e[check] = bool(caught)
    d = {k: v for k, v in d.items() if os.path.isdir(os.path.join(S, k))}
    json.dump(d, open(p, "w"), indent=0, sort_keys=True)


def catch(i, checks=None):
    assert not sh("git -C /repo status --short").stdout.strip()
    p = sh("git -C /repo apply %s" % os.path.join(S, i, "patch.diff"))
    assert p.returncode == 0, p.stderr
    try:
        for c in checks or [meta(i)["property"]]:
            r = sh("bin/check %s" % c, cwd=V)
            v = "VIOLATION property=%s" % c in r.stdout
            note(i, c, v and r.returncode == 1)
            print(("CAUGHT" if v and r.returncode == 1 else "missed" if r.returncode == 0 else "rc=%d" % r.returncode), i, c, next((x for x in r.stdout.split("\n") if x.strip()), "")[:140], flush=True)
    finally:
        sh("git -C /repo checkout -q -- .")


if __name__ == "__main__":
    a = sys.argv[1:]
    if a[0] == "new":
        new(a[1], a[2])
    else:
        ids = a[1:]
        checks = None
        if "--" in ids:
            k = ids.index("--")
            ids, checks = ids[:k], ids[k + 1:]
        for i in ids or sorted(os.listdir(S)):
            if a[0] == "validate":
                validate(i)
            else:
                catch(i, checks)
