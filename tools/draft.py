#!/usr/bin/env python3
"""draft.py REL QUAL...: print first-draft reference functions for review (docstrings, annotations, logging removed)."""
import ast, sys, warnings
warnings.filterwarnings('ignore')
class Clean(ast.NodeTransformer):
    def visit_Expr(self, n):
        if isinstance(n.value, ast.Constant): return None
        if isinstance(n.value, ast.Call):
            f = ast.unparse(n.value.func)
            if f == "print" or f.startswith("logger.") or "logger" in f: return None
        return self.generic_visit(n)
    def visit_AnnAssign(self, n):
        if n.value is None: return None
        return ast.copy_location(ast.Assign(targets=[n.target], value=n.value), n)
    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        n.returns = None
        for a in n.args.args + n.args.kwonlyargs + n.args.posonlyargs + [x for x in (n.args.vararg, n.args.kwarg) if x]:
            a.annotation = None
        n.body = n.body or [ast.Pass()]
        return n
    def generic_visit(self, n):
        super().generic_visit(n)
        for f in ("body",):
            if isinstance(getattr(n, f, None), list) and not getattr(n, f) and not isinstance(n, ast.Module):
                setattr(n, f, [ast.Pass()])
        return n
def main():
    rel = sys.argv[1]
    t = ast.parse(open("/repo/skdecide/" + rel).read())
    idx = {}
    for n in [y for x in t.body for y in (x.body if isinstance(x, (ast.Try, ast.If)) else [x])]:
        if isinstance(n, ast.FunctionDef): idx[n.name] = n
        if isinstance(n, ast.ClassDef):
            for m in n.body:
                if isinstance(m, ast.FunctionDef): idx.setdefault(n.name + "." + m.name, m)
    want = sys.argv[2:] or list(idx)
    for q in idx:
        if not any(q == w or (w.endswith(".*") and q.startswith(w[:-1])) for w in want): continue
        m = Clean().visit(idx[q])
        if sys.argv[2:] == [] and len(m.body) == 1 and isinstance(m.body[0], (ast.Raise, ast.Pass)): continue
        m.decorator_list = []
        name = m.name
        m.name = "_"
        print('\n\n@spec("%s", "%s")' % (rel, q))
        print(ast.unparse(ast.fix_missing_locations(m)))
main()
