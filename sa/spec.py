"""Reference specifications: parsed (never executed) and analysed by the same engine."""
import ast
import functools
import os
from .program import FuncInfo


class SpecFn:
    def __init__(self, node, file, rel, qual, opts, imports):
        self.node = node
        self.file = file
        self.rel = rel
        self.qual = qual
        self.opts = opts
        self.imports = imports


@functools.lru_cache(None)
def load_spec(path):
    """@spec("file.py", "Class.method", **opts) def _(...): ..."""
    tree = ast.parse(open(path).read())
    imports = {}
    out = []
    for n in tree.body:
        if isinstance(n, ast.Import):
            for a in n.names:
                imports[a.asname or a.name] = a.name
        elif isinstance(n, ast.ImportFrom):
            for a in n.names:
                imports[a.asname or a.name] = n.module + "." + a.name
        elif isinstance(n, ast.FunctionDef):
            for d in n.decorator_list:
                if isinstance(d, ast.Call) and isinstance(d.func, ast.Name) and d.func.id == "spec":
                    rel = ast.literal_eval(d.args[0])
                    quals = ast.literal_eval(d.args[1])
                    opts = {k.arg: ast.literal_eval(k.value) for k in d.keywords}
                    for q in ([quals] if isinstance(quals, str) else quals):
                        node = ast.FunctionDef(name=q.split(".")[-1], args=n.args, body=n.body, decorator_list=[], lineno=n.lineno,
                                               col_offset=0)
                        out.append(SpecFn(node, path, "skdecide/" + rel, q, opts, imports))
    return out


def index(path):
    return {(f.rel, f.qual) for f in load_spec(path)}
