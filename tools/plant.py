#!/usr/bin/env python3
"""Generate and confirm the planted bugs in seeded/ (from tools/plants.py).

plant.py [ID...]           write patch.diff, demo.sh, meta.json and confirm:
                           applies, builds, tests pass, demo distinguishes
plant.py --check [ID...]   run the property's quick check against each bug
                           (in a scratch copy, through PIP_REPO)
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from plants import PLANTS

V = os.path.dirname(HERE)
PY = "/opt/venv/bin/python"
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONIOENCODING="utf-8",
           PYTHONPYCACHEPREFIX="/nonexistent/pycache")

DEMO = '''#!/bin/bash
# Run with cwd /repo: exit 0 if pip.py behaves as documented here.
export PYTHONDONTWRITEBYTECODE=1 PYTHONIOENCODING=utf-8
exec /opt/venv/bin/python - <<'PYTHON'
import subprocess, sys
CASES = %s
bad = 0
for argv, stdin, want in CASES:
    r = subprocess.run([sys.executable, "pip.py"] + argv, input=stdin,
                       capture_output=True, text=True, timeout=60)
    if r.stdout != want:
        print(argv, "should print", repr(want), "but prints", repr(r.stdout),
              r.stderr[-200:])
        bad = 1
sys.exit(bad)
PYTHON
'''
PYDEMO = '''#!/bin/bash
# Run with cwd /repo: exit 0 if the code behaves as documented here.
export PYTHONDONTWRITEBYTECODE=1 PYTHONIOENCODING=utf-8
exec /opt/venv/bin/python - <<'PYTHON'
import sys
sys.path.insert(0, ".")
%s
PYTHON
'''


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, env=ENV, capture_output=True,
                          text=True, **kw)


def original_lines():
    """(file, text) of lines that fix commits added."""
    out = subprocess.run(
        ["git", "-C", "/repo", "diff", "-U0", "a0ae245", "HEAD"],
        capture_output=True, text=True).stdout
    added, f = {}, None
    for l in out.splitlines():
        if l.startswith("+++ b/"):
            f = l[6:]
        elif l.startswith("@@"):
            a = l.split("+")[1].split(" ")[0].split(",")
            start, n = int(a[0]), int(a[1]) if len(a) > 1 else 1
            added.setdefault(f, set()).update(range(start, start + n))
    return added


ADDED = original_lines()


def make(p):
    d = os.path.join(V, "seeded", p["id"])
    w = tempfile.mkdtemp(prefix="plant_")
    try:
        c = os.path.join(w, "repo")
        subprocess.run(["git", "clone", "-q", "/repo", c], check=True)
        for f, old, new in p["edits"]:
            path = os.path.join(c, f)
            s = open(path).read()
            if s.count(old) != 1:
                return f"{s.count(old)} occurrences of {old!r} in {f}"
            first = s[:s.index(old)].count("\n") + 1
            open(path, "w").write(s.replace(old, new))
        diff = sh(["git", "diff", "-U0"], c).stdout
        touched = False
        f = None
        for l in diff.splitlines():
            if l.startswith("+++ b/"):
                f = l[6:]
            elif l.startswith("@@"):
                a = l.split("-")[1].split(" ")[0].split(",")
                start, n = int(a[0]), int(a[1]) if len(a) > 1 else 1
                if n == 0 or set(range(start, start + n)) - ADDED.get(f, set()):
                    touched = True
        if not touched:
            return "changes only lines of fix commits"
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, "patch.diff"), "w").write(
            sh(["git", "diff"], c).stdout)
        demo = (PYDEMO % p["py"].strip() if "py" in p else
                DEMO % ("[\n" + "".join(f"    {c!r},\n" for c in p["demo"])
                        + "]"))
        open(os.path.join(d, "demo.sh"), "w").write(demo)
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        json.dump({"property": p["property"], "needs": p["needs"],
                   "what_it_breaks": p["breaks"]},
                  open(os.path.join(d, "meta.json"), "w"), indent=1)
        t = sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "test"], c)
        if t.returncode:
            return "tests fail: " + t.stdout[-500:]
        dem = ["bash", os.path.join(d, "demo.sh")]
        bad = sh(dem, c)
        sh(["git", "checkout", "-q", "--", "."], c)
        good = sh(dem, c)
        if good.returncode:
            return "demo fails on the unchanged tree: " + good.stdout + good.stderr
        if not bad.returncode:
            return "demo passes with the bug"
        return None
    finally:
        shutil.rmtree(w)


def check(p):
    w = tempfile.mkdtemp(prefix="plant_")
    try:
        c = os.path.join(w, "repo")
        subprocess.run(["git", "clone", "-q", "/repo", c], check=True)
        subprocess.run(["git", "apply",
                        os.path.join(V, "seeded", p["id"], "patch.diff")],
                       cwd=c, check=True)
        env = dict(ENV, PIP_REPO=c, VERIF_OUT=w)
        r = subprocess.run(["python3", "check.py", p["property"], "--tier",
                            "quick"], cwd=V, env=env, capture_output=True,
                           text=True)
        v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
        return (f"{'caught' if r.returncode == 1 and v else 'MISSED'} "
                f"rc={r.returncode} {len(v)} violations")
    finally:
        shutil.rmtree(w)


if __name__ == "__main__":
    a = sys.argv[1:]
    doing = check if "--check" in a else make
    ids = [x for x in a if not x.startswith("-")]
    for p in PLANTS:
        if not ids or p["id"] in ids:
            print(p["id"], doing(p) or "ok", flush=True)
