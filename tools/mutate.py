"""Self-test of the machinery: small changes of the functions under contract (operators, conditions, constants, dropped or
swapped statements, swapped arguments, ...). What no check reports is either the same function or a gap; read the list.

usage: mutate.py [Cnn ...] [-p pattern] [-j N] [-k kind] [-x kind,kind] [-s share] [-v]
Every changed module exists only in memory (overlay); /repo is not touched."""
import ast
import copy
import glob
import multiprocessing as mp
import os
import random
import sys

H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, "tools"))
import refactor as R
from sa import spec as S
from sa.check import Ctx
from sa.program import Program

CMP = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq],
       ast.Is: [ast.IsNot], ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Add], ast.Div: [ast.Mult], ast.FloorDiv: [ast.Div], ast.Mod: [ast.FloorDiv]}
NAMES = {"max": "min", "min": "max", "any": "all", "all": "any", "append": "insert0", "deepcopy": "", "list": "", "copy": "", "sorted": "list"}


def sites(fn):
    """(kind, description, apply) for each change; apply edits a copy of fn in place."""
    out = []
    nodes = list(ast.walk(fn))
    own_doc = ast.get_docstring(fn)
    notes = set()
    for n in nodes:
        for y in (getattr(n, "returns", None), getattr(n, "annotation", None)):
            if isinstance(y, ast.AST):
                notes |= {id(z) for z in ast.walk(y)}
    bad = set()
    for n in nodes:
        if isinstance(n, ast.Call) and (isinstance(n.func, ast.Name) and n.func.id == "print" or isinstance(n.func, ast.Attribute) and ast.unparse(n.func.value) in ("logger", "logging", "log")):
            bad |= {id(z) for z in ast.walk(n)}
        if isinstance(n, ast.Assert):
            bad |= {id(z) for z in ast.walk(n)}
    names = sorted({n.id for n in nodes if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} | {a.arg for a in fn.args.args})
    attrs = sorted({n.attr for n in nodes if isinstance(n, ast.Attribute)})
    for i, n in enumerate(nodes):
        if id(n) in notes or id(n) in bad or isinstance(n, ast.Return) and n.value is None:
            continue

        def at(f, i=i):
            def go(g):
                f(list(ast.walk(g))[i])
            return go
        ln = getattr(n, "lineno", 0)
        if isinstance(n, ast.Compare):
            for k, o in enumerate(n.ops):
                for c in CMP.get(type(o), ()):
                    out.append(("cmp", "%d: %s -> %s" % (ln, ast.unparse(n), c.__name__), at(lambda x, k=k, c=c: x.ops.__setitem__(k, c()))))
        if isinstance(n, (ast.BinOp, ast.AugAssign)):
            for c in BIN.get(type(n.op), ()):
                out.append(("bin", "%d: %s -> %s" % (ln, ast.unparse(n), c.__name__), at(lambda x, c=c: setattr(x, "op", c()))))
        if isinstance(n, ast.BoolOp):
            c = ast.Or if isinstance(n.op, ast.And) else ast.And
            out.append(("bool", "%d: %s -> %s" % (ln, ast.unparse(n), c.__name__), at(lambda x, c=c: setattr(x, "op", c()))))
            for k in range(len(n.values)):
                if len(n.values) > 1:
                    out.append(("drop", "%d: %s without %s" % (ln, ast.unparse(n), ast.unparse(n.values[k])),
                                at(lambda x, k=k: (x.values.pop(k), len(x.values) == 1 and x.values.append(copy.deepcopy(x.values[0]))))))
        if isinstance(n, (ast.If, ast.IfExp, ast.While)):
            def neg(x):
                x.test = x.test.operand if isinstance(x.test, ast.UnaryOp) and isinstance(x.test.op, ast.Not) else ast.UnaryOp(op=ast.Not(), operand=x.test)
            out.append(("neg", "%d: not %s" % (ln, ast.unparse(n.test)), at(neg)))
        if isinstance(n, ast.If):
            out.append(("always", "%d: always %s" % (ln, ast.unparse(n.test)), at(lambda x: setattr(x, "test", ast.Constant(True)))))
            out.append(("never", "%d: never %s" % (ln, ast.unparse(n.test)), at(lambda x: setattr(x, "test", ast.Constant(False)))))
        if isinstance(n, ast.comprehension) and n.ifs:
            out.append(("nofilter", "%d: no filter %s" % (getattr(n.ifs[0], "lineno", 0), ast.unparse(n.ifs[0])), at(lambda x: x.ifs.pop(0))))
        if isinstance(n, ast.Constant) and not (isinstance(n.value, str) and (n.value == own_doc or len(n.value) > 40)):
            v = n.value
            if isinstance(v, bool):
                out.append(("const", "%d: %s -> %s" % (ln, v, not v), at(lambda x, v=v: setattr(x, "value", not v))))
            elif isinstance(v, (int, float)):
                for w in (v + 1, v - 1) if v else (1,):
                    out.append(("const", "%d: %s -> %s" % (ln, v, w), at(lambda x, w=w: setattr(x, "value", w))))
            elif v is None:
                out.append(("const", "%d: None -> 0" % ln, at(lambda x: setattr(x, "value", 0))))
            elif isinstance(v, str):
                out.append(("const", "%d: %r -> 'zz'" % (ln, v), at(lambda x: setattr(x, "value", "zz"))))
        if isinstance(n, ast.Call):
            pos = [a for a in n.args if not isinstance(a, ast.Starred)]
            for k in range(len(pos) - 1):
                if ast.dump(n.args[k]) != ast.dump(n.args[k + 1]):
                    def sw(x, k=k):
                        x.args[k], x.args[k + 1] = x.args[k + 1], x.args[k]
                    out.append(("args", "%d: swap args %d,%d of %s" % (ln, k, k + 1, ast.unparse(n)[:60]), at(sw)))
            for k, w in enumerate(n.keywords):
                out.append(("kw", "%d: drop %s of %s" % (ln, w.arg, ast.unparse(n)[:60]), at(lambda x, k=k: x.keywords.pop(k))))
            nm = n.func.id if isinstance(n.func, ast.Name) else n.func.attr if isinstance(n.func, ast.Attribute) else ""
            if nm in ("max", "min", "any", "all"):
                def ren(x, m=NAMES[nm]):
                    if isinstance(x.func, ast.Name):
                        x.func.id = m
                    else:
                        x.func.attr = m
                out.append(("name", "%d: %s -> %s" % (ln, nm, NAMES[nm]), at(ren)))
            if nm in ("deepcopy", "copy", "list", "set", "sorted", "tuple", "int", "abs", "reversed") and len(n.args) == 1 and not n.keywords:
                out.append(("unwrap", "%d: %s without %s" % (ln, ast.unparse(n)[:60], nm), ("unwrap", i)))
            if nm == "copy" and not n.args and isinstance(n.func, ast.Attribute):
                out.append(("unwrap", "%d: %s without copy" % (ln, ast.unparse(n)[:60]), ("uncopy", i)))
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            out.append(("unary", "%d: %s without sign" % (ln, ast.unparse(n)[:60]), ("unary", i)))
        if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            for w in ("lower", "upper", "step"):
                if getattr(n.slice, w) is not None:
                    out.append(("slice", "%d: %s without %s" % (ln, ast.unparse(n)[:60], w), at(lambda x, w=w: setattr(x.slice, w, None))))
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in names:
            o = names[(names.index(n.id) + 1) % len(names)]
            if o != n.id:
                out.append(("var", "%d: %s -> %s" % (ln, n.id, o), at(lambda x, o=o: setattr(x, "id", o))))
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and n.attr in attrs:
            o = attrs[(attrs.index(n.attr) + 1) % len(attrs)]
            if o != n.attr:
                out.append(("attr", "%d: %s -> %s" % (ln, n.attr, o), at(lambda x, o=o: setattr(x, "attr", o))))
        if isinstance(n, ast.Break):
            out.append(("break", "%d: break -> continue" % ln, ("break", i)))
        for fld in ("body", "orelse", "finalbody"):
            b = getattr(n, fld, None)
            if not isinstance(b, list) or not b or not isinstance(b[0], ast.stmt):
                continue
            for k, s in enumerate(b):
                if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                    continue
                if isinstance(s, (ast.Pass, ast.Import, ast.ImportFrom, ast.FunctionDef, ast.Assert)):
                    continue
                t = ast.unparse(s).split("\n")[0][:70]
                if isinstance(s, ast.Expr) and id(s.value) in bad:
                    continue

                def dele(x, fld=fld, k=k):
                    getattr(x, fld)[k] = ast.Pass()
                out.append(("del", "%d: drop %s" % (s.lineno, t), at(dele)))
                if k + 1 < len(b) and not isinstance(s, (ast.Return, ast.Raise, ast.Continue, ast.Break)):
                    def swp(x, fld=fld, k=k):
                        l = getattr(x, fld)
                        l[k], l[k + 1] = l[k + 1], l[k]
                    out.append(("swap", "%d: swap %s / next" % (s.lineno, t), at(swp)))
                if isinstance(s, (ast.Assign, ast.AugAssign, ast.Expr)) and isinstance(n, (ast.If, ast.For, ast.While)) and k == len(b) - 1 and fld == "body":
                    out.append(("out", "%d: %s moved out of its block" % (s.lineno, t), ("out", i)))
    return out


class Rep(ast.NodeTransformer):
    def __init__(self, target, f):
        self.target, self.f = target, f

    def visit(self, n):
        if n is self.target:
            return self.f(n)
        return self.generic_visit(n)


def apply(fn, how):
    if callable(how):
        how(fn)
        return fn
    kind, i = how
    x = list(ast.walk(fn))[i]
    if kind == "unwrap":
        f = lambda n: n.args[0]
    elif kind == "uncopy":
        f = lambda n: n.func.value
    elif kind == "unary":
        f = lambda n: n.operand
    elif kind == "break":
        f = lambda n: ast.Continue()
    elif kind == "out":
        s = x.body.pop()
        if not x.body:
            x.body.append(ast.Pass())
        f = lambda n: [n, s]
    return Rep(x, f).visit(fn)


def find(tree, cname, fname):
    owner = tree
    for part in cname.split(".") if cname else ():
        owner = next((x for x in owner.body if isinstance(x, ast.ClassDef) and x.name == part), None)
        if owner is None:
            return None
    for x in reversed(owner.body):
        if isinstance(x, ast.FunctionDef) and x.name == fname:
            return x


def job(a):
    prop, rel, qual, alts, only = a
    base = R._ctx0()
    fi, cls = base.fn(rel[len("skdecide/"):], qual)
    if fi is None:
        return []
    src = open("/repo/" + fi.module.rel).read()
    cname, fname = fi.cls.qual[len(fi.module.name) + 1:] if fi.cls else "", fi.name
    kind, desc, how = sites(find(ast.parse(src), cname, fname))[only]
    tree = ast.parse(src)
    f = find(tree, cname, fname)
    key = "%s %s %s %s %s" % (prop, rel, qual, kind, desc)
    try:
        apply(f, how)
        out = ast.unparse(ast.fix_missing_locations(tree))
        compile(out, "x", "exec")
    except Exception as e:
        return key, "invalid", repr(e)
    if out == ast.unparse(ast.parse(src)):
        return key, "same", ""
    c = Ctx("X", prog=Program("/repo", overlay={fi.module.rel: out}))
    c._specfn = base._specfn
    try:
        c.check_against(rel, qual, alts)
    except Exception as e:
        return key, "CRASH", repr(e)
    if c.violations:
        return key, "caught", ""
    if c.errors:
        return key, "ERROR", str(c.errors)
    if c.undec:
        return key, "UNDECIDED", str(c.undec)
    return key, "MISSED", ""


def main():
    args = sys.argv[1:]
    props, pat, j, kind, skip, share = [], "", 6, "", (), 1.0
    rnd = random.Random(int(os.environ.get("VERIF_SEED", "1")))
    while args:
        a = args.pop(0)
        if a == "-p":
            pat = args.pop(0)
        elif a == "-j":
            j = int(args.pop(0))
        elif a == "-k":
            kind = args.pop(0)
        elif a == "-s":
            share = float(args.pop(0))
        elif a == "-x":
            skip = args.pop(0).split(",")
        else:
            props.append(a.lower())
    base = R._ctx0()
    jobs = []
    for f in sorted(glob.glob(os.path.join(H, "specs", "c*.py"))):
        p = os.path.basename(f)[:-3]
        if props and p not in props:
            continue
        g = {}
        for s in S.load_spec(f):
            g.setdefault((s.rel, s.qual), []).append(s)
        for (rel, qual), alts in g.items():
            if pat and pat not in qual or qual.startswith("="):
                continue
            fi, cls = base.fn(rel[len("skdecide/"):], qual)
            if fi is None:
                continue
            fn = find(ast.parse(open("/repo/" + fi.module.rel).read()), fi.cls.qual[len(fi.module.name) + 1:] if fi.cls else "", fi.name)
            if fn is None:
                continue
            for k, s in enumerate(sites(fn)):
                if (not kind or s[0] == kind) and s[0] not in skip and rnd.random() < share:
                    jobs.append((p, rel, qual, alts, k))
    st = {}
    print(len(jobs), "changes", flush=True)
    with mp.Pool(j) as pool:
        for key, r, msg in pool.imap_unordered(job, jobs, chunksize=4):
            st[r] = st.get(r, 0) + 1
            if r in ("MISSED", "UNDECIDED", "ERROR", "CRASH"):
                print(r, key, msg[:200].replace("\n", " "), flush=True)
    print(st)


if __name__ == "__main__":
    main()
