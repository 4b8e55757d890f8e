#!/usr/bin/env python3
"""Make and confirm planted bugs (development tool; no check uses it).

  bug.py verify ID...      patch applies, builds, stable tests pass, demo 0/nonzero
  bug.py check  ID...      run the property's quick check against a patched copy
mk(...) is imported by the scripts that define bugs.
"""
import json
import os
import shutil
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(ROOT, "seeded")
WORK = "/tmp/bugwork"


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, text=True, capture_output=True, **kw)


def fresh(tag="main"):
    d = os.path.join(WORK, tag)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(WORK, exist_ok=True)
    subprocess.run(["cp", "-a", "/repo", d], check=True)
    return d


def mk(id, prop, needs, breaks, edits, demo, files=(), runner="/opt/venv/bin/python"):
    d = fresh(id)
    for path, old, new in edits:
        p = os.path.join(d, path)
        s = open(p).read()
        assert s.count(old) == 1, (id, path, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    out = os.path.join(SEEDED, id)
    os.makedirs(out, exist_ok=True)
    diff = sh("git diff", cwd=d).stdout
    open(os.path.join(out, "patch.diff"), "w").write(diff)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks},
              open(os.path.join(out, "meta.json"), "w"), indent=1)
    open(os.path.join(out, "demo.py"), "w").write(demo)
    for f in files:
        shutil.copy(f, out)
    with open(os.path.join(out, "demo.sh"), "w") as f:
        f.write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD:$(dirname "$0")"\n'
                'exec %s "$(dirname "$0")/demo.py"\n' % runner)
    os.chmod(os.path.join(out, "demo.sh"), 0o755)
    shutil.rmtree(d)
    verify(id)


def verify(id):
    d = fresh(id)
    s = os.path.join(SEEDED, id)
    demo = os.path.join(WORK, id + "-demo")
    shutil.rmtree(demo, ignore_errors=True)
    shutil.copytree(s, demo)
    for f in ("patch.diff", "meta.json"):
        os.remove(os.path.join(demo, f))
    r0 = sh("bash %s/demo.sh" % demo, cwd=d)
    ap = sh("git apply --check %s/patch.diff && git apply %s/patch.diff" % (s, s), cwd=d)
    t = sh("PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=%s PYTHONHASHSEED=0 /opt/venv/bin/python -m pytest -q -p no:cacheprovider "
           "--no-cov --confcutdir=tests/ebaybbn tests/ebaybbn" % d, cwd=d)
    r1 = sh("bash %s/demo.sh" % demo, cwd=d)
    ok = r0.returncode == 0 and ap.returncode == 0 and t.returncode == 0 and r1.returncode != 0
    print(id, "OK" if ok else "BAD", "clean=%d apply=%d tests=%d patched=%d" % (
        r0.returncode, ap.returncode, t.returncode, r1.returncode))
    if not ok:
        print(r0.stdout[-500:], r0.stderr[-800:], ap.stderr, t.stdout[-1500:] if t.returncode else "", r1.stdout[-300:], r1.stderr[-500:])
    else:
        print("   ", (r1.stdout + r1.stderr).strip().splitlines()[-1][:200])
    shutil.rmtree(d)
    shutil.rmtree(demo)
    return ok


def check(id, prop=None, extra=()):
    d = fresh(id)
    s = os.path.join(SEEDED, id)
    assert sh("git apply %s/patch.diff" % s, cwd=d).returncode == 0
    prop = prop or json.load(open(s + "/meta.json"))["property"]
    r = sh("VERIF_REPO=%s ./check %s --tier quick --no-evidence %s" % (d, prop, " ".join(extra)), cwd=ROOT)
    lines = [l for l in r.stdout.splitlines() if "VIOLATION" in l]
    print(id, prop, "caught" if r.returncode == 1 and lines else "MISSED rc=%d" % r.returncode, (lines or [""])[0])
    if r.returncode not in (0, 1):
        print(r.stdout[-800:], r.stderr[-800:])
    shutil.rmtree(d)


if __name__ == "__main__":
    cmd, ids = sys.argv[1], sys.argv[2:]
    if cmd == "check" and len(ids) == 2 and ids[1].startswith("C") and len(ids[1]) == 3:
        check(ids[0], ids[1])
    else:
        for i in ids or sorted(os.listdir(SEEDED)):
            {"verify": verify, "check": check}[cmd](i)
