"""Functions of /repo without a contract.  uncovered.py PATH_PREFIX..."""
import glob, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from sa.check import Ctx
from sa import spec as S
c = Ctx("X")
cov = set()
for f in glob.glob(os.path.join(H, "specs", "c*.py")):
    for s in S.load_spec(f):
        fi, k = c.fn(s.rel[9:], s.qual)
        if fi: cov.add(fi.qual)
n = 0
for m in c.prog.modules.values():
    if not any(m.rel[9:].startswith(a) for a in sys.argv[1:]): continue
    fs = list(m.funcs.values()) + [f for k in m.classes.values() for f in k.methods.values()]
    for f in fs:
        if f.qual not in cov:
            n += 1
            l = (f.node.end_lineno - f.node.lineno)
            print(m.rel[9:], (f.cls.name + "." if f.cls else "") + f.name, l)
print(n, "uncovered;", len(cov), "covered")
