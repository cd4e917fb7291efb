"""Self-test of the engine: pairs of small functions that do the same thing (must compare equal)
and pairs that do not (must compare different).  python3 tools/pairs.py [-v]"""
import os
import sys
import tempfile
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
sys.setrecursionlimit(30000)
import warnings
warnings.filterwarnings("ignore")
from sa.check import Ctx
from sa.program import Program
from sa.compare import diff, order_diff

REL = "utils.py"
TMP = tempfile.mkdtemp()
os.makedirs(TMP + "/skdecide")
open(TMP + "/skdecide/utils.py", "w").write("")
SAME, DIFF = [], []


def same(*s):
    SAME.append(s)


def differ(*s):
    DIFF.append(s)


SRC = "import random, itertools, heapq\n"


VOC = {"skdecide.utils.C.m", "skdecide.utils.C.n", "skdecide.utils.C.f"}


def summ(src):
    c = Ctx("X", prog=Program(TMP, overlay={"skdecide/" + REL: SRC + "\n\n" + src}))
    c.vocab |= VOC
    fi, cls = c.fn(REL, "C.f" if "class C" in src else "f")
    return c, fi, cls


def equal(a, b):
    c1, f1, k1 = summ(a)
    c2, f2, k2 = summ(b)
    d = None
    for relaxed in (False, True):
        x, y = c1.summary(f1, k1, relaxed=relaxed), c2.summary(f2, k2, relaxed=relaxed)
        d = diff(x, y) or order_diff(x, y)
        if not d:
            return None
    return d


def main():
    bad = 0
    exec(compile(open(os.path.join(H, "tools", "pairs_data.py")).read(), "pairs_data.py", "exec"), {"same": same, "differ": differ})
    for kind, ps in (("same", SAME), ("differ", DIFF)):
        for i, p in enumerate(ps):
            for q in p[1:]:
                try:
                    d = equal(p[0], q)
                except Exception as e:
                    d = "EXC %r" % e
                if (kind == "same") == bool(d):
                    bad += 1
                    print("BAD %s #%d: %s" % (kind, i, str(d)[:400]))
                    print("    " + p[0].strip().replace("\n", "\n    ") + "\n    ---\n    " + q.strip().replace("\n", "\n    "))
    print("%d same, %d differ, %d bad" % (len(SAME), len(DIFF), bad))


try:
    main()
finally:
    import shutil
    shutil.rmtree(TMP)
