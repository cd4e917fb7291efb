"""Plant a bug: seed(id, prop, rel, edits, needs, breaks, demo). Verifies it in a scratch copy and keeps it in seeded/."""
import json, os, shutil, subprocess, sys, textwrap
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/seedwt"
PY = "/opt/venv/bin/python"
HEAD = '''import os, sys, warnings
warnings.filterwarnings("ignore")
sys.path.insert(0, os.getcwd())
'''


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


def fresh():
    if os.path.exists(W):
        shutil.rmtree(W)
    sh("cp -a /repo " + W)


def seed(id, prop, rel, edits, needs, breaks, demo, first=False):
    """edits: [(old, new)] in file rel, or [(rel, old, new)] with rel=None"""
    fresh()
    for e in edits:
        r, old, new = e if len(e) == 3 else (rel,) + tuple(e)
        p = os.path.join(W, r)
        s = open(p).read()
        assert s.count(old) == 1 or first and old in s, (id, r, s.count(old), old)
        open(p, "w").write(s.replace(old, new, 1))
    d = os.path.join(HERE, "seeded", id)
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(sh("git -C %s diff" % W).stdout)
    open(d + "/demo.py", "w").write(HEAD + textwrap.dedent(demo))
    open(d + "/demo.sh", "w").write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    ok = True
    a = sh("bash %s/demo.sh" % d, cwd="/repo", timeout=280)
    if a.returncode != 0:
        print(id, "DEMO FAILS ON UNCHANGED", a.stdout[-800:], a.stderr[-1500:]); ok = False
    b = sh("bash %s/demo.sh" % d, cwd=W, timeout=280)
    if b.returncode == 0:
        print(id, "DEMO PASSES ON PATCHED", b.stdout[-500:]); ok = False
    t = sh("PYTHONDONTWRITEBYTECODE=1 %s -m pytest -p no:cacheprovider --continue-on-collection-errors --ignore=tests/test_scheduling.py --ignore=tests/test_solvers.py --ignore=tests/test_parallel_deterministic_algorithms.py --ignore=tests/test_parallel_probabilistic_algorithms.py" % PY, cwd=W)
    if "96 passed" not in t.stdout:
        print(id, "TESTS", t.stdout[-600:]); ok = False
    blame(id, W)
    c = sh("SA_REPO=%s python3 check.py %s" % (W, prop), cwd=HERE)
    print(id, prop, "valid" if ok else "INVALID", "caught" if c.returncode == 1 and "VIOLATION property=" + prop in c.stdout else "MISSED rc=%d %s" % (c.returncode, c.stdout[-300:]),
          "| demo: " + (b.stderr.strip().splitlines() or ["?"])[-1][:150])
    if not ok:
        shutil.rmtree(d)
    shutil.rmtree(W)
    return ok


def blame(id, W):
    """All removed lines must come from the original commit."""
    diff = sh("git -C %s diff -U0" % W).stdout
    base = "9447bc4"
    f = None
    for l in diff.splitlines():
        if l.startswith("--- a/"):
            f = l[6:]
        elif l.startswith("-") and not l.startswith("---"):
            if l[1:].strip() and l[1:] not in sh("git -C /repo show %s:%s" % (base, f)).stdout.splitlines():
                print(id, "WARNING: removed line is not original:", l)
