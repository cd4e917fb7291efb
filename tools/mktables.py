"""Regenerate specs/interface.json: delegation, hints, caching and class structure tables (review the diff by hand)."""
import ast, json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
sys.setrecursionlimit(30000)
from sa.check import Ctx, decorator_list, _dflt
from sa.terms import show
from sa.rules import hints_of, norm

c = Ctx("X")
deleg, hints, cached, struct = [], {}, [], {}
for m in c.prog.modules.values():
    core = m.rel.startswith("skdecide/builders") and "discrete_optimization" not in m.rel or m.rel in ("skdecide/core.py", "skdecide/domains.py", "skdecide/solvers.py")
    for k in m.classes.values():
        for n, f in k.methods.items():
            dec = decorator_list(f)
            auto = "skdecide.core.autocastable" in dec
            if core and not n.startswith("_") and c.prog.lookup(k, "_" + n):
                s = c.summary(f, k)
                if show(s.ret).startswith("self._%s(" % n) and len(s.all_events) == 1:
                    deleg.append([m.rel[9:], k.name + "." + n, auto])
            if auto:
                hints[m.rel[9:] + "::" + k.name + "." + n] = hints_of(f)
            if core and any("cache" in d for d in dec):
                cached.append([m.rel[9:], k.name + "." + n])
        if core:
            t = {a: norm(ast.unparse(v)) for a, v in k.attrs.items() if a.startswith("T_") and v is not None}
            struct[m.rel[9:] + "::" + k.name] = {"bases": [x.name for x in c.prog.mro(k)[1:]], "T": t}
json.dump({"delegation": deleg, "hints": hints, "cached": cached, "structure": struct}, open(os.path.join(H, "specs", "interface.json"), "w"), indent=1, sort_keys=True)
print(len(deleg), len(hints), len(cached), len(struct))
