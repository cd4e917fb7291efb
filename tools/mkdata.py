"""Regenerate specs/data.json: values of tables, constants, class attributes and bases under contract (review the diff by hand)."""
import ast, json, os, re, sys, collections
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
sys.setrecursionlimit(30000)
from sa.check import Ctx
from sa.spec import load_spec
from sa import data as D

c = Ctx("X")
cnt = collections.defaultdict(collections.Counter)
for f in sorted(os.listdir(H + "/specs")):
    if re.match(r"c\d\d\.py$", f):
        for s in load_spec(H + "/specs/" + f):
            cnt[s.rel][f[:3]] += 1
core = lambda rel: rel.startswith("skdecide/builders/domain") or rel.startswith("skdecide/builders/solver") or rel in ("skdecide/core.py", "skdecide/domains.py", "skdecide/solvers.py")
out = {}
for m in c.prog.modules.values():
    if m.rel not in cnt:
        continue
    names = {}
    for n in D.names_bound(m.tree.body):
        ss = D.slice_of(m.tree.body, n, False)
        src = "\n".join(ast.unparse(x) for x in ss)
        if re.search(r"TypeVar|sys\.path|__all__|listdir|logging|path_to_data|files_available|getLogger", src) or n in ("D", "T") or n.startswith("T_"):
            continue
        if isinstance(m.assigns.get(n), ast.Subscript):
            continue  # type aliases
        names[n] = src
    classes = {}
    for cn, k in D.classes_of(m):
        e = {"decos": D.decos_of(k), "attrs": {}}
        if not core(m.rel):
            e["bases"], e["ext"] = D.bases_of(c.prog, k)
        f = D.fields_of(c.prog, k)
        if f is not None:
            e["fields"] = f
        en = D.is_enum(c.prog, k)
        for a, v in k.attrs.items():
            if v is None or a.startswith("__") or a.startswith("T_") and (core(m.rel) or a not in D.T_KEPT) or isinstance(v, ast.Subscript):
                continue
            e["attrs"][a] = "%s = %s" % (a, ast.unparse(v)) if en else "\n".join(ast.unparse(x) for x in D.slice_of(k.node.body, a, True))
        if en:
            e["enum"] = True
            txt = "\n".join(x.src for x in c.prog.modules.values())
            e["iterated"] = bool(re.search(r"(in|list\(|len\(|enumerate\(|tuple\()\s*%s\b(?!\.)" % k.name, txt))
            e["opaque"] = not re.search(r"(?<!class )\b%s\(|\.value\b" % k.name, m.src) and not any("Int" in b for b in (e.get("ext") or D.bases_of(c.prog, k)[1]))
        classes[cn] = e
    if names or classes:
        out[m.rel] = {"names": names, "classes": classes, "owner": cnt[m.rel].most_common(1)[0][0]}
json.dump(out, open(H + "/specs/data.json", "w"), indent=1, sort_keys=False)
print(len(out), "modules", sum(len(w["names"]) for w in out.values()), "names", sum(len(w["classes"]) for w in out.values()), "classes", sum(len(k["attrs"]) for w in out.values() for k in w["classes"].values()), "attributes")
