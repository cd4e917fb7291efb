"""Write sa/vocab.json (names of the confirmed functions and class attributes) and sa/decorators.json."""
import json
import os
import sys

H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from sa.program import Program

p = Program(os.environ.get("SA_REPO", "/repo"))
v = set()
for f in p.all_functions():
    v.add(f.qual)
for c in p.classes.values():
    for a in c.attrs:
        v.add(c.qual + "." + a)
for m in p.modules.values():
    for a in m.assigns:
        v.add(m.name + "." + a)
json.dump(sorted(v), open(os.path.join(H, "sa", "vocab.json"), "w"), indent=0)
dec = os.path.join(H, "sa", "decorators.json")
if not os.path.exists(dec):
    json.dump({}, open(dec, "w"))
from sa.check import decorator_list
json.dump({f.qual: decorator_list(f) for f in p.all_functions()}, open(dec, "w"), indent=0, sort_keys=True)
