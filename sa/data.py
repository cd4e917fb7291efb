"""Contracts of data: module-level tables and constants, class attributes, enum members, record fields, bases of classes."""
import ast
import json
import os
from .terms import *
from .canon import canon
from .check import HERE, PKG, _dflt
from .program import FuncInfo

T_KEPT = ("T_domain", "T_agent", "T_concurrency", "T_memory")
MUT = {"append", "add", "update", "extend", "insert", "setdefault", "pop", "remove"}
RECORDS = ("typing.NamedTuple", "NamedTuple")


def walk(n):
    """the nodes of a statement that run with it: not the bodies of functions and classes"""
    todo = [n]
    while todo:
        x = todo.pop()
        yield x
        if not isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
            todo.extend(ast.iter_child_nodes(x))


def binds(n, name):
    """Does the statement bind or change NAME?"""
    for x in walk(n):
        if isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, (ast.Store, ast.Del)):
            return True
        if isinstance(x, (ast.Subscript, ast.Attribute)) and isinstance(x.ctx, (ast.Store, ast.Del)) and isinstance(x.value, ast.Name) and x.value.id == name:
            return True
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in MUT and isinstance(x.func.value, ast.Name) and x.func.value.id == name:
            return True
    return False


def main_guard(n):
    return isinstance(n, ast.If) and "__name__" in ast.unparse(n.test)


def top(body):
    return [n for n in body if not isinstance(n, (ast.Import, ast.ImportFrom, ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)) and not main_guard(n)
            and not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant))]


def loads(stmts):
    return {x.id for n in stmts for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load)}


def names_bound(body):
    out = []
    for n in top(body):
        for x in walk(n):
            if isinstance(x, (ast.Assign, ast.AnnAssign, ast.AugAssign)) and getattr(x, "value", None) is not None:
                for t in (x.targets if isinstance(x, ast.Assign) else [x.target]):
                    for y in (t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t]):
                        if isinstance(y, ast.Name) and y.id not in out:
                            out.append(y.id)
    return out


def slice_of(body, name, closed):
    """Statements of a body that make NAME; closed: with the other names of the body they use."""
    want = {name}
    while True:
        ss = [n for n in top(body) if any(binds(n, w) for w in want) and not (isinstance(n, ast.AnnAssign) and n.value is None)]
        more = (loads(ss) & set(names_bound(body))) - want if closed else set()
        if not more:
            return ss
        want |= more


def fn_of(stmts, name, m, cls=None):
    node = ast.FunctionDef(name="<%s>" % name, args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]),
                           body=list(stmts) + [ast.Return(value=ast.Name(id=name, ctx=ast.Load()))], decorator_list=[], lineno=stmts[0].lineno, col_offset=0)
    ast.copy_location(node.body[-1], stmts[0])
    ast.fix_missing_locations(node.body[-1])
    return FuncInfo(node, m, None, "%s.<%s>" % (m.name, name))


def is_enum(prog, c):
    return any(not hasattr(b, "qual") and str(b).split(".")[-1] in ("Enum", "IntEnum", "Flag") for k in prog.mro(c) for b in prog.bases(k))


def bases_of(prog, c):
    """(names of the repository's classes in resolution order, names of the others)"""
    mro = prog.mro(c)
    ext = {str(b).split(".")[-1] for k in mro for b in prog.bases(k) if not hasattr(b, "qual")} - {"object", "Generic"}
    return [k.name for k in mro[1:]], sorted(ext)


def fields_of(prog, c):
    rec = any(not hasattr(b, "qual") and str(b) in RECORDS for b in prog.bases(c)) or any("dataclass" in ast.unparse(d) for d in c.node.decorator_list)
    if not rec:
        return None
    return [n.target.id for n in c.node.body if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and not n.target.id.startswith("_")]


def decos_of(c):
    out = []
    for d in c.node.decorator_list:
        if isinstance(d, ast.Call):
            out.append(ast.unparse(d.func).split(".")[-1] + "(" + ",".join(sorted("%s=%s" % (k.arg, ast.unparse(k.value)) for k in d.keywords)) + ")")
        else:
            out.append(ast.unparse(d).split(".")[-1] + "()")
    return sorted(out)


def classes_of(m):
    todo = [("", c) for c in m.classes.values()]
    while todo:
        p, c = todo.pop(0)
        yield p + c.name, c
        todo = [(p + c.name + ".", k) for k in c.inner.values()] + todo


def load():
    return json.load(open(os.path.join(HERE, "specs", "data.json")))


def _val(ctx, stmts, name, m, key, relaxed=False):
    s = ctx.summary(fn_of(stmts, name, m), None, lambda f: False, key, relaxed=relaxed)
    return canon(s.ret), [canon(e.term) for e in s.all_events if e.kind in ("store", "setitem")]


def used(ctx, name, but=()):
    for m in ctx.prog.modules.values():
        for x in ast.walk(m.tree):
            if (isinstance(x, ast.Attribute) and x.attr == name or isinstance(x, ast.Name) and x.id == name) and isinstance(x.ctx, ast.Load):
                return True
            if isinstance(x, ast.ImportFrom) and any(a.name == name for a in x.names):
                return True
    return False


def check_data(ctx, rels):
    ctx.rule("data", "module-level tables and constants, class attributes and enum members hold the values of their contract; records keep the order of their fields")
    ctx.rule("bases", "classes keep the base classes (and so the characteristics and inherited behaviour) of their contract")
    tab = load()
    for rel in sorted(rels):
        w = tab.get(rel)
        if not w:
            continue
        m = ctx.prog.module(rel)
        if m is None:
            continue
        for name, src in sorted(w["names"].items()):
            one(ctx, rel, name, src, m, m.tree.body, False, m)
        for cn, k in sorted(w["classes"].items()):
            one_class(ctx, rel, cn, k, m)


def one(ctx, rel, name, src, m, body, closed, owner, construct=None):
    construct = construct or "%s::%s" % (rel, name)
    ss = slice_of(body, name, closed)
    if not ss and owner is m:
        d = m.resolve(name)
        mod, _, nm = (d or "").rpartition(".")
        m2 = ctx.prog.modules.get(mod)
        if m2 is not None and m2 is not m:
            m, name2 = m2, nm
            ss = slice_of(m2.tree.body, nm, False)
            if ss:
                return _same(ctx, construct, ss, nm, m2, src, name, owner)
    if not ss:
        if used(ctx, name.split(".")[-1]):
            ctx.ob(False, "data", construct, "%s:1" % rel, "%s is not defined, but is used" % name)
        return
    _same(ctx, construct, ss, name, m, src, name, owner)


def _same(ctx, construct, ss, name, m, src, sname, owner):
    from .check import time_limit, OutOfTime
    sm = owner if hasattr(owner, "resolve") else owner.module
    try:
        with time_limit(60):
            for r in (False, True):
                a, ea = _val(ctx, ss, name, m, ("data", construct), r)
                b, eb = _val(ctx, ast.parse(src).body, sname, sm, ("sdata", construct), r)
                if a is b and ea == eb:
                    break
    except (TooBig, RecursionError, OutOfTime):
        return ctx.undecided(construct, "analysis too large")
    ctx.ob(a is b and ea == eb, "data", construct, "%s:%d" % (m.rel, ss[0].lineno), "%s is %s; required %s" % (sname, show(a)[:400], show(b)[:400]))


def one_class(ctx, rel, cn, k, m):
    prog = ctx.prog
    c = prog.cls(rel, cn)
    if c is None:
        d = m.resolve_own(cn)
        c = prog.classes.get(d) if d else None
    key = "%s::%s" % (rel, cn)
    if c is None:
        if used(ctx, cn.split(".")[-1]):
            ctx.ob(False, "bases", key, "%s:1" % rel, "class %s is not defined, but is used" % cn)
        return
    if "bases" in k:
        have, ext = bases_of(prog, c)
        names = set(load_names())
        miss = [b for b in k["bases"] if b not in have] + [b for b in k["ext"] if b not in ext]
        extra = [b for b in have if b not in k["bases"] and b in names] + [b for b in ext if b not in k["ext"] and b in ("Enum", "NamedTuple", "tuple", "dict", "list", "int", "str")]
        ctx.ob(not miss and not extra, "bases", key, c.where(), "%s lost %s, gained %s" % (cn, miss or "nothing", extra or "nothing"))
        pos = {b: i for i, b in enumerate(have)}
        by = {x.name: x for x in prog.mro(c)[1:]}
        bad = []
        for i, a in enumerate(k["bases"]):
            for b in k["bases"][i + 1:]:
                if a in pos and b in pos and pos[a] > pos[b]:
                    common = (set(by[a].methods) | set(by[a].attrs)) & (set(by[b].methods) | set(by[b].attrs)) - {"__init__"}
                    if common:
                        bad.append("%s now overrides %s for %s" % (b, a, sorted(common)[:3]))
        ctx.ob(not bad, "bases", key + " order", c.where(), "%s: %s" % (cn, "; ".join(bad)))
    ctx.ob(decos_of(c) == k["decos"], "bases", key + " decorators", c.where(), "%s is decorated by %s; required %s" % (cn, decos_of(c), k["decos"]))
    if k.get("fields") is not None:
        f = fields_of(prog, c)
        ctx.ob(f == k["fields"], "data", key + " fields", c.where(), "%s has the fields %s; required %s" % (cn, f, k["fields"]))
    if k.get("enum"):
        return enum(ctx, key, cn, k, c)
    for a, src in sorted(k["attrs"].items()):
        got = prog.lookup_attr(c, a)
        if got is None or got[1] is None:
            if used(ctx, a):
                ctx.ob(False, "data", key + "." + a, c.where(), "%s.%s has no value" % (cn, a))
            continue
        o = got[0]
        ss = slice_of(o.node.body, a, True)
        if ss:
            _same(ctx, key + "." + a, ss, a, o.module, src, a, m)


def enum(ctx, key, cn, k, c):
    got = {a: v for a, v in c.attrs.items() if v is not None and not a.startswith("_")}
    lost = [a for a in k["attrs"] if a not in got]
    ctx.ob(not lost, "data", key, c.where(), "%s lost the members %s" % (cn, lost))
    val = {a: ast.dump(v) for a, v in got.items()}
    bad = []
    auto = all("auto" in v for v in val.values())
    for a, src in k["attrs"].items():
        if a not in got:
            continue
        want = ast.parse(src).body[0].value
        if isinstance(want, ast.Constant) and isinstance(want.value, int) and k["opaque"]:
            # only identity matters
            if not auto and sum(1 for x in val.values() if x == val[a]) > 1:
                bad.append("%s is the same member as another" % a)
        elif ast.dump(want) != val[a]:
            bad.append("%s is %s; required %s" % (a, ast.unparse(got[a]), ast.unparse(want)))
    if k["iterated"]:
        o = [a for a in got if a in k["attrs"]]
        if o != list(k["attrs"]):
            bad.append("members in order %s; required %s" % (o, list(k["attrs"])))
    ctx.ob(not bad, "data", key + " members", c.where(), "%s: %s" % (cn, "; ".join(bad)))


_names = []


def load_names():
    if not _names:
        _names.extend({cn.split(".")[-1] for w in load().values() for cn in w["classes"]})
    return _names
