"""C24: contracts of the wrappers, plus agreement of their calls with the binding tables of the compiled planners."""
import ast
import os
import re


def _strip(src):
    return re.sub(r"//[^\n]*|/\*.*?\*/", "", src, flags=re.S)


def _calls(src, start):
    """the texts of the .def(...) calls that follow position start, up to the end of the statement"""
    out = []
    i = start
    while True:
        m = re.compile(r"\s*;|\.def\w*\s*\(").search(src, i)
        if m is None or m.group().strip() == ";":
            return out
        d, j = 1, m.end()
        while d and j < len(src):
            c = src[j]
            if c == '"':
                j = re.compile(r'"(\\.|[^"\\])*"').match(src, j).end()
                continue
            d += c == "("
            d -= c == ")"
            j += 1
        out.append(src[m.end():j - 1])
        i = j


def bindings(repo):
    """exported class -> (argument names of its constructor, names of its methods with their arguments)"""
    out = {}
    d = os.path.join(repo, "cpp", "src", "hub", "solver")
    for f in sorted(os.listdir(d)) if os.path.isdir(d) else ():
        if not f.endswith(".cc"):
            continue
        src = _strip(open(os.path.join(d, f), encoding="utf-8").read())
        for m in re.finditer(r'py::class_<\w+>\s+(\w+)\s*\(\s*m\s*,\s*"(\w+)"\s*\)\s*;', src):
            b = re.compile(r"\b%s\s*\.def\s*\(" % m.group(1)).search(src, m.end())
            if b is None:
                continue
            init, meths = None, {}
            for c in _calls(src, b.start()):
                args = re.findall(r'py::arg\(\s*"(\w+)"\s*\)\s*(=?)', c)
                if re.match(r"\s*py::init\b", c):
                    init = [(a, bool(e)) for a, e in args]
                else:
                    n = re.match(r'\s*"(\w+)"', c)
                    if n:
                        meths[n.group(1)] = [a for a, e in args]
            out[m.group(2)] = (init, meths)
    return out


def check(ctx):
    ctx.run_specs("c24.py")
    tab = bindings(ctx.repo)
    ctx.rule("binding", "a wrapper builds its compiled planner with arguments the binding declares, gives all it requires, and calls only methods the binding exports")
    for rel, m in sorted(ctx.prog.by_rel.items()):
        if not rel.startswith("skdecide/hub/solver/"):
            continue
        names = {}
        for x in ast.walk(m.tree):
            if isinstance(x, ast.ImportFrom) and x.module == "__skdecide_hub_cpp":
                for a in x.names:
                    names[a.asname or a.name] = a.name
        for x in ast.walk(m.tree):
            if not isinstance(x, ast.ClassDef):
                continue
            meths = None
            for c in ast.walk(x):
                if isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id in names and tab.get(names[c.func.id], (None,))[0]:
                    init, meths = tab[names[c.func.id]]
                    ok = [a for a, e in init]
                    given = set(ok[:len(c.args)]) | {k.arg for k in c.keywords}
                    where = "%s:%d" % (rel, c.lineno)
                    for k in c.keywords:
                        if k.arg is not None:
                            ctx.ob(k.arg in ok, "binding", "%s %s(%s)" % (x.name, names[c.func.id], k.arg), where,
                                   "%s builds %s with an argument %s, which its binding does not declare" % (x.name, names[c.func.id], k.arg))
                    if not any(k.arg is None for k in c.keywords) and not any(isinstance(a, ast.Starred) for a in c.args):
                        for a, e in init:
                            if not e:
                                ctx.ob(a in given, "binding", "%s %s(%s)" % (x.name, names[c.func.id], a), where,
                                       "%s builds %s without its required argument %s" % (x.name, names[c.func.id], a))
            for c in ast.walk(x) if meths else ():
                if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and isinstance(c.func.value, ast.Attribute) and c.func.value.attr == "_solver" \
                        and isinstance(c.func.value.value, ast.Name) and c.func.value.value.id == "self":
                    ctx.ob(c.func.attr in meths, "binding", "%s _solver.%s" % (x.name, c.func.attr), "%s:%d" % (rel, c.lineno),
                           "%s calls %s, which the binding of its planner does not export" % (x.name, c.func.attr))
