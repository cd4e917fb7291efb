"""Self-test of the machinery: behaviour-preserving rewrites of the functions under contract must not raise an alarm.

usage: refactor.py [Cnn ...] [-t transform] [-j N] [-c combos]
Every transformed module exists only in memory (overlay); /repo is not touched."""
import ast
import copy
import glob
import multiprocessing as mp
import os
import random
import sys
import warnings

warnings.filterwarnings("ignore")
sys.setrecursionlimit(30000)
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from sa import spec as S
from sa.check import Ctx
from sa.program import Program

TR = {}


def tr(f):
    TR[f.__name__] = f
    return f


def stores(nodes):
    out = set()
    for n in nodes if isinstance(nodes, list) else [nodes]:
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                out.add(x.id)
            elif isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                out.add(x.name)
            elif isinstance(x, (ast.Import, ast.ImportFrom)):
                out |= {a.asname or a.name.split(".")[0] for a in x.names}
    return out


def loads(nodes):
    out = set()
    for n in nodes if isinstance(nodes, list) else [nodes]:
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load):
                out.add(x.id)
    return out


def params(fn):
    a = fn.args
    return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] + ([a.vararg.arg] if a.vararg else []) + ([a.kwarg.arg] if a.kwarg else [])


def N(i, c=None):
    return ast.Name(id=i, ctx=c or ast.Load())


def pure(e):
    """No calls, no effects."""
    return not any(isinstance(x, (ast.Call, ast.Yield, ast.YieldFrom, ast.Await, ast.NamedExpr, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp, ast.Lambda)) for x in ast.walk(e))


def blocks(fn):
    """all statement lists (owner, field)"""
    for x in ast.walk(fn):
        for f in ("body", "orelse", "finalbody"):
            b = getattr(x, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                yield x, f, b
        if isinstance(x, ast.Try):
            pass


def nested(fn):
    return [x for x in ast.walk(fn) if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)) and x is not fn]


class Ren(ast.NodeTransformer):
    def __init__(self, m):
        self.m = m

    def visit_Name(self, n):
        if n.id in self.m:
            return ast.copy_location(ast.Name(id=self.m[n.id], ctx=n.ctx), n)
        return n


@tr
def rename_locals(fn, rng):
    loc = stores(fn.body) - set(params(fn))
    defs = {x.name for x in ast.walk(fn) if isinstance(x, (ast.FunctionDef, ast.ClassDef))}
    exc = {x.name for x in ast.walk(fn) if isinstance(x, ast.ExceptHandler)}
    inner = {y.arg for x in nested(fn) if isinstance(x, (ast.FunctionDef, ast.Lambda)) for y in x.args.args}
    glob_ = {y for x in ast.walk(fn) if isinstance(x, (ast.Global, ast.Nonlocal)) for y in x.names}
    imp = {(a.asname or a.name) for x in ast.walk(fn) if isinstance(x, (ast.Import, ast.ImportFrom)) for a in x.names}
    loc -= defs | exc | inner | glob_ | imp
    if not loc:
        return None
    fn.body = [Ren({k: "zz_" + k for k in loc}).visit(b) for b in fn.body]
    return fn, []


@tr
def noop_stmt(fn, rng):
    fn.body.insert(rng.randrange(0, len(fn.body)) if not isinstance(fn.body[0], ast.Expr) else 1, ast.parse("_unused = 0").body[0])
    return fn, []


@tr
def return_var(fn, rng):
    done = False
    for o, f, b in list(blocks(fn)):
        for i, s in enumerate(list(b)):
            if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, (ast.Name, ast.Constant)):
                k = b.index(s)
                b[k:k + 1] = [ast.Assign(targets=[N("res_", ast.Store())], value=s.value), ast.Return(value=N("res_"))]
                done = True
    return (fn, []) if done else None


@tr
def single_exit(fn, rng):
    """if c: return X ; rest -> result variable"""
    b = fn.body
    for i, s in enumerate(b):
        if isinstance(s, ast.If) and not s.orelse and isinstance(s.body[-1], ast.Return) and i + 1 < len(b):
            s.orelse = b[i + 1:]
            del b[i + 1:]
            return fn, []
    return None


@tr
def drop_else(fn, rng):
    for o, f, b in list(blocks(fn)):
        for i, s in enumerate(b):
            if isinstance(s, ast.If) and s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break)):
                b[i + 1:i + 1] = s.orelse
                s.orelse = []
                return fn, []
    return None


@tr
def result_var(fn, rng):
    """if c: return X else: return Y -> if c: r = X else: r = Y; return r"""
    done = False
    for o, f, b in list(blocks(fn)):
        s = b[-1]
        if isinstance(s, ast.If) and len(s.body) >= 1 and s.orelse and isinstance(s.body[-1], ast.Return) and isinstance(s.orelse[-1], ast.Return) \
                and s.body[-1].value is not None and s.orelse[-1].value is not None:
            s.body[-1] = ast.Assign(targets=[N("res_", ast.Store())], value=s.body[-1].value)
            s.orelse[-1] = ast.Assign(targets=[N("res_", ast.Store())], value=s.orelse[-1].value)
            b.append(ast.Return(value=N("res_")))
            done = True
    return (fn, []) if done else None


@tr
def invert_if(fn, rng):
    done = False
    for x in ast.walk(fn):
        if isinstance(x, ast.If):
            x.test = ast.UnaryOp(op=ast.Not(), operand=x.test)
            if x.orelse:
                x.body, x.orelse = x.orelse, x.body
            else:
                x.body, x.orelse = [ast.Pass()], x.body
            done = True
    return (fn, []) if done else None


@tr
def ifexp_to_if(fn, rng):
    done = False
    for o, f, b in list(blocks(fn)):
        for s in list(b):
            k = b.index(s)
            if isinstance(s, ast.Return) and isinstance(s.value, ast.IfExp):
                b[k] = ast.If(test=s.value.test, body=[ast.Return(value=s.value.body)], orelse=[ast.Return(value=s.value.orelse)])
                done = True
            elif isinstance(s, ast.Assign) and isinstance(s.value, ast.IfExp) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                b[k] = ast.If(test=s.value.test, body=[ast.Assign(targets=s.targets, value=s.value.body)],
                              orelse=[ast.Assign(targets=copy.deepcopy(s.targets), value=s.value.orelse)])
                done = True
    return (fn, []) if done else None


@tr
def if_to_ifexp(fn, rng):
    done = False
    for o, f, b in list(blocks(fn)):
        for s in list(b):
            if isinstance(s, ast.If) and len(s.body) == 1 and len(s.orelse) == 1:
                x, y = s.body[0], s.orelse[0]
                if isinstance(x, ast.Return) and isinstance(y, ast.Return) and x.value and y.value:
                    b[b.index(s)] = ast.Return(value=ast.IfExp(test=s.test, body=x.value, orelse=y.value))
                    done = True
                elif isinstance(x, ast.Assign) and isinstance(y, ast.Assign) and ast.dump(x.targets[0]) == ast.dump(y.targets[0]) and isinstance(x.targets[0], (ast.Name,)):
                    b[b.index(s)] = ast.Assign(targets=x.targets, value=ast.IfExp(test=s.test, body=x.value, orelse=y.value))
                    done = True
    return (fn, []) if done else None


@tr
def and_to_nested(fn, rng):
    done = False
    for x in ast.walk(fn):
        if isinstance(x, ast.If) and not x.orelse and isinstance(x.test, ast.BoolOp) and isinstance(x.test.op, ast.And):
            t = x.test.values
            x.body = [ast.If(test=t[-1] if len(t) == 2 else ast.BoolOp(op=ast.And(), values=t[1:]), body=x.body, orelse=[])]
            x.test = t[0]
            done = True
    return (fn, []) if done else None


@tr
def nested_to_and(fn, rng):
    done = False
    for x in ast.walk(fn):
        if isinstance(x, ast.If) and not x.orelse and len(x.body) == 1 and isinstance(x.body[0], ast.If) and not x.body[0].orelse:
            y = x.body[0]
            x.test = ast.BoolOp(op=ast.And(), values=[x.test, y.test])
            x.body = y.body
            done = True
    return (fn, []) if done else None


@tr
def demorgan(fn, rng):
    class V(ast.NodeTransformer):
        done = False

        def visit_BoolOp(self, n):
            self.generic_visit(n)
            if getattr(n, "_seen", False):
                return n
            return n

        def visit_If(self, n):
            self.generic_visit(n)
            if isinstance(n.test, ast.BoolOp):
                op = ast.Or() if isinstance(n.test.op, ast.And) else ast.And()
                n.test = ast.UnaryOp(op=ast.Not(), operand=ast.BoolOp(op=op, values=[ast.UnaryOp(op=ast.Not(), operand=v) for v in n.test.values]))
                V.done = True
            return n
    fn = V().visit(fn)
    return (fn, []) if V.done else None


@tr
def flip_compare(fn, rng):
    M = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}
    done = False
    for x in ast.walk(fn):
        if isinstance(x, ast.Compare) and len(x.ops) == 1 and type(x.ops[0]) in M and pure(x.left) and pure(x.comparators[0]):
            x.left, x.comparators[0] = x.comparators[0], x.left
            x.ops[0] = M[type(x.ops[0])]()
            done = True
    return (fn, []) if done else None


@tr
def not_compare(fn, rng):
    M = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is}

    class V(ast.NodeTransformer):
        done = False

        def visit_Compare(self, n):
            self.generic_visit(n)
            if len(n.ops) == 1 and type(n.ops[0]) in M:
                V.done = True
                return ast.UnaryOp(op=ast.Not(), operand=ast.Compare(left=n.left, ops=[M[type(n.ops[0])]()], comparators=n.comparators))
            return n
    fn = V().visit(fn)
    return (fn, []) if V.done else None


def _loop_ok(e):
    return True


@tr
def comp_to_loop(fn, rng):
    """x = [..] / return [..] / {..} comprehension -> explicit loop"""
    done = False
    for o, f, b in list(blocks(fn)):
        for s in list(b):
            if isinstance(s, (ast.Assign, ast.Return)) and isinstance(s.value, (ast.ListComp, ast.SetComp, ast.DictComp)):
                c = s.value
                v = "acc_"
                if isinstance(c, ast.ListComp):
                    init = ast.List(elts=[], ctx=ast.Load())
                    body = ast.Expr(ast.Call(func=ast.Attribute(value=N(v), attr="append", ctx=ast.Load()), args=[c.elt], keywords=[]))
                elif isinstance(c, ast.SetComp):
                    init = ast.Call(func=N("set"), args=[], keywords=[])
                    body = ast.Expr(ast.Call(func=ast.Attribute(value=N(v), attr="add", ctx=ast.Load()), args=[c.elt], keywords=[]))
                else:
                    init = ast.Dict(keys=[], values=[])
                    body = ast.Assign(targets=[ast.Subscript(value=N(v), slice=c.key, ctx=ast.Store())], value=c.value)
                # comprehension variables are local: rename
                m = {k: "cv_" + k for g in c.generators for k in stores(g.target)}
                R = Ren(m)
                body = R.visit(body)
                first = True
                for g in reversed(c.generators):
                    for i in reversed(g.ifs):
                        body = ast.If(test=R.visit(i), body=[body], orelse=[])
                    it = g.iter if g is c.generators[0] else R.visit(g.iter)
                    body = ast.For(target=R.visit(g.target), iter=it, body=[body], orelse=[])
                k = b.index(s)
                new = [ast.Assign(targets=[N(v, ast.Store())], value=init), body]
                s.value = N(v)
                b[k:k] = new
                done = True
    return (fn, []) if done else None


@tr
def loop_to_comp(fn, rng):
    """x = []; for..: x.append(e) -> comprehension (init directly before the loop)"""
    done = False
    for o, f, b in list(blocks(fn)):
        for i in range(len(b) - 1):
            s, l = b[i], b[i + 1]
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(l, ast.For) and not l.orelse and len(l.body) == 1:
                v = s.targets[0].id
                ifs = []
                x = l.body[0]
                while isinstance(x, ast.If) and not x.orelse and len(x.body) == 1:
                    ifs.append(x.test)
                    x = x.body[0]
                tv = stores(l.target)
                if v in loads(l.iter) or any(v in loads(t) for t in ifs) or (tv & loads(b[i + 2:])):
                    continue
                if isinstance(s.value, ast.List) and not s.value.elts and isinstance(x, ast.Expr) and isinstance(x.value, ast.Call) and isinstance(x.value.func, ast.Attribute) \
                        and isinstance(x.value.func.value, ast.Name) and x.value.func.value.id == v and x.value.func.attr == "append" and v not in loads(x.value.args[0]):
                    c = ast.ListComp(elt=x.value.args[0], generators=[ast.comprehension(target=l.target, iter=l.iter, ifs=ifs, is_async=0)])
                elif isinstance(s.value, ast.Dict) and not s.value.keys and isinstance(x, ast.Assign) and isinstance(x.targets[0], ast.Subscript) \
                        and isinstance(x.targets[0].value, ast.Name) and x.targets[0].value.id == v and v not in loads(x.value) and v not in loads(x.targets[0].slice):
                    c = ast.DictComp(key=x.targets[0].slice, value=x.value, generators=[ast.comprehension(target=l.target, iter=l.iter, ifs=ifs, is_async=0)])
                else:
                    continue
                s.value = c
                b[i + 1] = ast.Pass()
                done = True
    return (fn, []) if done else None


def _free_locals(fn, stmts):
    loc = set(params(fn)) | stores(fn.body)
    return sorted(loads(stmts) & loc)


def _has_flow(stmts):
    for s in stmts:
        for x in ast.walk(s):
            if isinstance(x, (ast.Return, ast.Break, ast.Continue, ast.Yield, ast.YieldFrom, ast.Raise)):
                return True
    return False


def _mk_helper(fn, name, args, body):
    a = ast.arguments(posonlyargs=[], args=[ast.arg(arg=x) for x in args], kwonlyargs=[], kw_defaults=[], defaults=[])
    return ast.FunctionDef(name=name, args=a, body=body, decorator_list=[], lineno=1, col_offset=0)


def _uses_super(stmts):
    return any(isinstance(x, ast.Name) and x.id == "super" for s in stmts for x in ast.walk(s)) or any(
        isinstance(x, ast.Attribute) and x.attr.startswith("__") and not x.attr.endswith("__") for s in stmts for x in ast.walk(s))


@tr
def extract_tail(fn, rng):
    """move the tail of the body into a helper"""
    start = 1 if isinstance(fn.body[0], ast.Expr) and isinstance(fn.body[0].value, ast.Constant) else 0
    if len(fn.body) - start < 2 or any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(fn)):
        return None
    k = rng.randrange(start + 1, len(fn.body))
    tail = fn.body[k:]
    if _uses_super(tail) or any(isinstance(x, (ast.FunctionDef, ast.Lambda)) for x in ast.walk(fn)):
        return None
    return _extract(fn, fn.body, k, len(fn.body), tail, True)


def _maybe_undefined(fn, names, before):
    d = set(params(fn))
    # definitely assigned at top level of the statements before
    for s in before:
        if isinstance(s, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
            d |= stores(s)
        elif isinstance(s, ast.With):
            d |= stores(s)
    return [n for n in names if n not in d]


def _extract(fn, b, i, j, stmts, tail):
    names = _free_locals(fn, stmts)
    sf = params(fn)[0] if params(fn) else None
    ism = getattr(fn, "_method", False)
    if _maybe_undefined(fn, names, fn.body[:i] if b is fn.body else []):
        # names defined inside stmts only are fine
        und = set(_maybe_undefined(fn, names, fn.body[:i] if b is fn.body else []))
        defd = set()
        for s in stmts:
            if loads(s) & und - defd - stores(s):
                return None
            if isinstance(s, ast.For):
                defd |= stores(s)
            else:
                if isinstance(s, ast.Assign):
                    defd |= stores(s)
                elif und & stores(s):
                    return None
        names = [n for n in names if n not in und]
    args = [n for n in names if not (ism and n == sf)]
    hn = "_extracted_part"
    helper = _mk_helper(fn, hn, ([sf] if ism else []) + args, stmts)
    call = ast.Call(func=ast.Attribute(value=N(sf), attr=hn, ctx=ast.Load()) if ism else N(hn), args=[N(a) for a in args], keywords=[])
    b[i:j] = [ast.Return(value=call)] if tail else [ast.Expr(call)]
    return fn, [helper]


@tr
def extract_block(fn, rng):
    """move the body of an if/for into a helper when it assigns no name used later and has no control flow"""
    cands = []
    if any(isinstance(x, (ast.FunctionDef, ast.Lambda, ast.Yield)) for x in ast.walk(fn) if x is not fn):
        return None
    for o, f, b in blocks(fn):
        if o is fn or f != "body" or not isinstance(o, (ast.If, ast.For, ast.While, ast.With)):
            continue
        if _has_flow(b) or _uses_super(b) or stores(b) or isinstance(b[0], ast.Pass):
            continue
        cands.append(b)
    if not cands:
        return None
    b = rng.choice(cands)
    names = _free_locals(fn, b)
    sf = params(fn)[0] if params(fn) else None
    ism = getattr(fn, "_method", False)
    args = [n for n in names if not (ism and n == sf)]
    helper = _mk_helper(fn, "_extracted_blk", ([sf] if ism else []) + args, list(b))
    call = ast.Call(func=ast.Attribute(value=N(sf), attr="_extracted_blk", ctx=ast.Load()) if ism else N("_extracted_blk"), args=[N(a) for a in args], keywords=[])
    b[:] = [ast.Expr(call)]
    return fn, [helper]


@tr
def extract_expr(fn, rng):
    """move the value of an assignment/return into a helper"""
    cands = []
    if any(isinstance(x, (ast.FunctionDef, ast.Lambda)) for x in ast.walk(fn) if x is not fn):
        return None
    for o, f, b in blocks(fn):
        for s in b:
            if isinstance(s, (ast.Assign, ast.Return)) and s.value is not None and not isinstance(s.value, (ast.Name, ast.Constant, ast.Yield)) and not _uses_super([s]):
                cands.append(s)
    if not cands:
        return None
    s = rng.choice(cands)
    comp = {k for x in ast.walk(s.value) if isinstance(x, ast.comprehension) for k in stores(x.target)}
    loc = set(params(fn)) | stores(fn.body)
    names = sorted((loads(s.value) & loc) - comp)
    sf = params(fn)[0] if params(fn) else None
    ism = getattr(fn, "_method", False)
    args = [n for n in names if not (ism and n == sf)]
    helper = _mk_helper(fn, "_extracted_expr", ([sf] if ism else []) + args, [ast.Return(value=s.value)])
    s.value = ast.Call(func=ast.Attribute(value=N(sf), attr="_extracted_expr", ctx=ast.Load()) if ism else N("_extracted_expr"), args=[N(a) for a in args], keywords=[])
    return fn, [helper]


@tr
def extract_cond(fn, rng):
    cands = [x for x in ast.walk(fn) if isinstance(x, ast.If) and not isinstance(x.test, (ast.Name, ast.Constant)) and not _uses_super([ast.Expr(x.test)])]
    if not cands or any(isinstance(x, (ast.FunctionDef, ast.Lambda)) for x in ast.walk(fn) if x is not fn):
        return None
    s = rng.choice(cands)
    comp = {k for x in ast.walk(s.test) if isinstance(x, ast.comprehension) for k in stores(x.target)}
    loc = set(params(fn)) | stores(fn.body)
    names = sorted((loads(s.test) & loc) - comp)
    sf = params(fn)[0] if params(fn) else None
    ism = getattr(fn, "_method", False)
    args = [n for n in names if not (ism and n == sf)]
    helper = _mk_helper(fn, "_is_cond", ([sf] if ism else []) + args, [ast.Return(value=s.test)])
    s.test = ast.Call(func=ast.Attribute(value=N(sf), attr="_is_cond", ctx=ast.Load()) if ism else N("_is_cond"), args=[N(a) for a in args], keywords=[])
    return fn, [helper]


@tr
def hoist_args(fn, rng):
    """first call of a simple statement: arguments into variables"""
    done = False
    n = 0
    for o, f, b in list(blocks(fn)):
        for s in list(b):
            if isinstance(s, (ast.Assign, ast.Return, ast.Expr)) and isinstance(s.value, ast.Call) and not any(isinstance(a, ast.Starred) for a in s.value.args):
                c = s.value
                if isinstance(c.func, ast.Attribute) and not pure(c.func) or isinstance(c.func, ast.Name) and c.func.id == "super":
                    continue
                if isinstance(c.func, ast.Attribute) and isinstance(c.func.value, ast.Call):
                    continue
                new = []
                for i, a in enumerate(c.args):
                    if not isinstance(a, (ast.Name, ast.Constant, ast.GeneratorExp, ast.Lambda)):
                        v = "arg_%d" % n
                        n += 1
                        new.append(ast.Assign(targets=[N(v, ast.Store())], value=a))
                        c.args[i] = N(v)
                if new:
                    k = b.index(s)
                    b[k:k] = new
                    done = True
    return (fn, []) if done else None


@tr
def inline_var(fn, rng):
    """v = e; <next statement uses v exactly once, v not used elsewhere> -> inline"""
    done = False
    for o, f, b in list(blocks(fn)):
        i = 0
        while i < len(b) - 1:
            s, nx = b[i], b[i + 1]
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(nx, (ast.Return, ast.Assign, ast.Expr)):
                v = s.targets[0].id
                uses = [x for x in ast.walk(fn) if isinstance(x, ast.Name) and x.id == v]
                here = [x for x in ast.walk(nx) if isinstance(x, ast.Name) and x.id == v and isinstance(x.ctx, ast.Load)]
                if len(uses) == 2 and len(here) == 1 and not any(here[0] in list(ast.walk(y)) for y in ast.walk(nx) if isinstance(y, (ast.Lambda, ast.ListComp, ast.DictComp, ast.SetComp, ast.GeneratorExp, ast.IfExp, ast.BoolOp))):
                    # the use must come first in evaluation order or everything else be pure
                    if pure(s.value) or all(pure(x) for x in [nx.value] if x is not None) :
                        class R(ast.NodeTransformer):
                            def visit_Name(self, n):
                                return s.value if n is here[0] else n
                        b[i + 1] = R().visit(nx)
                        del b[i]
                        done = True
                        continue
            i += 1
    return (fn, []) if done else None


@tr
def aug_plain(fn, rng):
    done = False
    for o, f, b in list(blocks(fn)):
        for i, s in enumerate(b):
            if isinstance(s, ast.AugAssign) and isinstance(s.target, (ast.Name, ast.Attribute)) and isinstance(s.value, (ast.Constant, ast.Name, ast.BinOp, ast.Attribute)) and not isinstance(s.value, ast.List):
                t = copy.deepcopy(s.target)
                for x in ast.walk(t):
                    if hasattr(x, "ctx"):
                        x.ctx = ast.Load()
                b[i] = ast.Assign(targets=[s.target], value=ast.BinOp(left=t, op=s.op, right=s.value))
                done = True
    return (fn, []) if done else None


@tr
def swap_assigns(fn, rng):
    """swap adjacent independent pure assignments to local names"""
    done = False
    for o, f, b in list(blocks(fn)):
        i = 0
        while i < len(b) - 1:
            s, t = b[i], b[i + 1]
            ok = all(isinstance(x, ast.Assign) and isinstance(x.targets[0], ast.Name) and pure(x.value) for x in (s, t))
            if ok and s.targets[0].id != t.targets[0].id and s.targets[0].id not in loads(t) and t.targets[0].id not in loads(s):
                b[i], b[i + 1] = t, s
                done = True
                i += 2
                continue
            i += 1
    return (fn, []) if done else None


@tr
def swap_attr_assigns(fn, rng):
    """swap adjacent attribute stores with pure independent values"""
    done = False
    for o, f, b in list(blocks(fn)):
        i = 0
        while i < len(b) - 1:
            s, t = b[i], b[i + 1]
            ok = all(isinstance(x, ast.Assign) and isinstance(x.targets[0], ast.Attribute) and pure(x) for x in (s, t))
            if ok:
                a1, a2 = s.targets[0].attr, t.targets[0].attr
                if a1 != a2 and not any(isinstance(x, ast.Attribute) and x.attr == a1 for x in ast.walk(t.value)) and not any(isinstance(x, ast.Attribute) and x.attr == a1 for x in ast.walk(t.targets[0])) and not any(isinstance(x, ast.Attribute) and x.attr == a2 for x in ast.walk(s.value)):
                    b[i], b[i + 1] = t, s
                    done = True
                    i += 2
                    continue
            i += 1
    return (fn, []) if done else None


@tr
def items_to_keys(fn, rng):
    done = False
    for x in ast.walk(fn):
        if isinstance(x, ast.For) and isinstance(x.iter, ast.Call) and isinstance(x.iter.func, ast.Attribute) and x.iter.func.attr == "items" and not x.iter.args \
                and isinstance(x.target, ast.Tuple) and isinstance(x.target.elts[0], ast.Name) and pure(x.iter.func.value):
            d = x.iter.func.value
            x.iter = d
            k, v = x.target.elts
            x.target = k
            x.body.insert(0, ast.Assign(targets=[v], value=ast.Subscript(value=copy.deepcopy(d), slice=N(k.id), ctx=ast.Load())))
            done = True
    return (fn, []) if done else None


@tr
def keys_call(fn, rng):
    done = False
    for x in ast.walk(fn):
        if isinstance(x, ast.Compare) and len(x.ops) == 1 and isinstance(x.ops[0], (ast.In, ast.NotIn)) and isinstance(x.comparators[0], ast.Call) and \
                isinstance(x.comparators[0].func, ast.Attribute) and x.comparators[0].func.attr == "keys":
            x.comparators[0] = x.comparators[0].func.value
            done = True
        if isinstance(x, (ast.For, ast.comprehension)) and isinstance(x.iter, ast.Call) and isinstance(x.iter.func, ast.Attribute) and x.iter.func.attr == "keys":
            x.iter = x.iter.func.value
            done = True
    return (fn, []) if done else None


@tr
def enumerate_to_range(fn, rng):
    done = False
    for x in ast.walk(fn):
        if isinstance(x, ast.For) and isinstance(x.iter, ast.Call) and isinstance(x.iter.func, ast.Name) and x.iter.func.id == "enumerate" and len(x.iter.args) == 1 and \
                isinstance(x.iter.args[0], (ast.Name, ast.Attribute)) and isinstance(x.target, ast.Tuple) and isinstance(x.target.elts[0], ast.Name):
            l = x.iter.args[0]
            x.iter = ast.Call(func=N("range"), args=[ast.Call(func=N("len"), args=[l], keywords=[])], keywords=[])
            i, v = x.target.elts
            x.target = i
            x.body.insert(0, ast.Assign(targets=[v], value=ast.Subscript(value=copy.deepcopy(l), slice=N(i.id), ctx=ast.Load())))
            done = True
    return (fn, []) if done else None


@tr
def range_to_enumerate(fn, rng):
    done = False
    for num, x in enumerate(list(ast.walk(fn))):
        elt = "elt%d_" % num
        if isinstance(x, ast.For) and isinstance(x.iter, ast.Call) and isinstance(x.iter.func, ast.Name) and x.iter.func.id == "range" and len(x.iter.args) == 1 and \
                isinstance(x.iter.args[0], ast.Call) and isinstance(x.iter.args[0].func, ast.Name) and x.iter.args[0].func.id == "len" and isinstance(x.target, ast.Name):
            l = x.iter.args[0].args[0]
            if not pure(l) or stores(x.body) & loads(l):
                continue
            d = ast.dump(l)
            # no stores into l in the body
            if any(isinstance(y, ast.Subscript) and isinstance(y.ctx, ast.Store) and ast.dump(y.value) == d for y in ast.walk(x)) or \
                    any(isinstance(y, ast.Call) and isinstance(y.func, ast.Attribute) and ast.dump(y.func.value) == d for y in ast.walk(x)):
                continue
            i = x.target

            class R(ast.NodeTransformer):
                def visit_Subscript(self, n):
                    self.generic_visit(n)
                    if isinstance(n.ctx, ast.Load) and ast.dump(n.value) == d and isinstance(n.slice, ast.Name) and n.slice.id == i.id:
                        return N(elt)
                    return n
            x.body = [R().visit(s) for s in x.body]
            x.iter = ast.Call(func=N("enumerate"), args=[l], keywords=[])
            x.target = ast.Tuple(elts=[i, N(elt, ast.Store())], ctx=ast.Store())
            done = True
    return (fn, []) if done else None


@tr
def for_to_while(fn, rng):
    """for x in range(n) without continue -> while"""
    for o, f, b in list(blocks(fn)):
        for s in list(b):
            if isinstance(s, ast.For) and isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Name) and s.iter.func.id == "range" and len(s.iter.args) == 1 and isinstance(s.target, ast.Name) \
                    and not s.orelse and not any(isinstance(x, ast.Continue) for x in ast.walk(s)) and s.target.id not in stores(s.body):
                k = b.index(s)
                i = s.target.id
                lim = "lim_"
                new = [ast.Assign(targets=[N(lim, ast.Store())], value=s.iter.args[0]), ast.Assign(targets=[N(i, ast.Store())], value=ast.Constant(0)),
                       ast.While(test=ast.Compare(left=N(i), ops=[ast.Lt()], comparators=[N(lim)]),
                                 body=s.body + [ast.AugAssign(target=N(i, ast.Store()), op=ast.Add(), value=ast.Constant(1))], orelse=[])]
                if i in loads(b[k + 1:]):
                    continue
                b[k:k + 1] = new
                return fn, []
    return None


@tr
def guard_continue(fn, rng):
    """for: if c: body -> for: if not c: continue; body"""
    done = False
    for x in ast.walk(fn):
        if isinstance(x, ast.For) and len(x.body) == 1 and isinstance(x.body[0], ast.If) and not x.body[0].orelse:
            i = x.body[0]
            x.body = [ast.If(test=ast.UnaryOp(op=ast.Not(), operand=i.test), body=[ast.Continue()], orelse=[])] + i.body
            done = True
    return (fn, []) if done else None


@tr
def anyall_to_loop(fn, rng):
    """return any(c for x in xs) -> loop with early return"""
    b = fn.body
    s = b[-1]
    if isinstance(s, ast.Return) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Name) and s.value.func.id in ("any", "all") and \
            len(s.value.args) == 1 and isinstance(s.value.args[0], (ast.GeneratorExp, ast.ListComp)) and len(s.value.args[0].generators) == 1:
        g = s.value.args[0].generators[0]
        isany = s.value.func.id == "any"
        m = {k: "cv_" + k for k in stores(g.target)}
        R = Ren(m)
        t = R.visit(s.value.args[0].elt)
        body = ast.If(test=t if isany else ast.UnaryOp(op=ast.Not(), operand=t), body=[ast.Return(value=ast.Constant(isany))], orelse=[])
        for i in g.ifs:
            body = ast.If(test=R.visit(i), body=[body], orelse=[])
        b[-1:] = [ast.For(target=R.visit(g.target), iter=g.iter, body=[body], orelse=[]), ast.Return(value=ast.Constant(not isany))]
        return fn, []
    return None


@tr
def loop_flag(fn, rng):
    """for: if c: return A ; return B  -> flag"""
    b = fn.body
    if len(b) >= 2 and isinstance(b[-1], ast.Return) and isinstance(b[-2], ast.For) and not b[-2].orelse and len(b[-2].body) == 1 and isinstance(b[-2].body[0], ast.If) \
            and not b[-2].body[0].orelse and len(b[-2].body[0].body) == 1 and isinstance(b[-2].body[0].body[0], ast.Return):
        l = b[-2]
        r = l.body[0].body[0]
        if r.value is None or b[-1].value is None or not isinstance(b[-1].value, ast.Constant):
            return None
        l.body[0].body = [ast.Assign(targets=[N("out_", ast.Store())], value=r.value), ast.Break()]
        b[-2:] = [ast.Assign(targets=[N("out_", ast.Store())], value=b[-1].value), l, ast.Return(value=N("out_"))]
        return fn, []
    return None


@tr
def get_default(fn, rng):
    """d.get(k, v) <-> conditional"""
    done = False

    class R(ast.NodeTransformer):
        def visit_Call(self, n):
            nonlocal done
            self.generic_visit(n)
            if isinstance(n.func, ast.Attribute) and n.func.attr == "get" and len(n.args) == 2 and not n.keywords and pure(n.func.value) and pure(n.args[0]) and isinstance(n.func.value, (ast.Name, ast.Attribute)):
                done = True
                return ast.IfExp(test=ast.Compare(left=n.args[0], ops=[ast.In()], comparators=[n.func.value]),
                                 body=ast.Subscript(value=copy.deepcopy(n.func.value), slice=copy.deepcopy(n.args[0]), ctx=ast.Load()), orelse=n.args[1])
            return n
    fn = R().visit(fn)
    return (fn, []) if done else None


@tr
def alias_attr(fn, rng):
    """read an attribute of self never stored nor called into a local at the top"""
    if not getattr(fn, "_method", False):
        return None
    sf = params(fn)[0]
    cnt = {}
    bad = set()
    for x in ast.walk(fn):
        if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == sf:
            if isinstance(x.ctx, ast.Load):
                cnt[x.attr] = cnt.get(x.attr, 0) + 1
            else:
                bad.add(x.attr)
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and x.func.value.id == sf:
            # a call on self may rebind attributes
            return None
        if isinstance(x, ast.Call) and not isinstance(x.func, ast.Name):
            for a in list(x.args) + [k.value for k in x.keywords]:
                if isinstance(a, ast.Name) and a.id == sf:
                    return None
    if nested(fn) and any(isinstance(x, (ast.FunctionDef, ast.Lambda)) for x in nested(fn)):
        return None
    c = [a for a in cnt if a not in bad and cnt[a] >= 2]
    if not c:
        return None
    a = rng.choice(sorted(c))

    class R(ast.NodeTransformer):
        def visit_Attribute(self, n):
            if isinstance(n.value, ast.Name) and n.value.id == sf and n.attr == a:
                return N("al_" + a)
            self.generic_visit(n)
            return n
    # only valid if the attribute exists for sure: skip when the first read is conditional
    first = fn.body[0] if not (isinstance(fn.body[0], ast.Expr) and isinstance(fn.body[0].value, ast.Constant)) else (fn.body[1] if len(fn.body) > 1 else fn.body[0])
    if not isinstance(first, (ast.Assign, ast.Return, ast.Expr, ast.If, ast.For)):
        return None
    hd = first.test if isinstance(first, ast.If) else first.iter if isinstance(first, ast.For) else first
    if not any(isinstance(x, ast.Attribute) and x.attr == a for x in ast.walk(hd)):
        return None
    fn.body = [R().visit(s) for s in fn.body]
    fn.body.insert(0, ast.Assign(targets=[N("al_" + a, ast.Store())], value=ast.Attribute(value=N(sf), attr=a, ctx=ast.Load())))
    return fn, []


@tr
def fstring_format(fn, rng):
    done = False

    class R(ast.NodeTransformer):
        def visit_JoinedStr(self, n):
            nonlocal done
            if any(isinstance(v, ast.FormattedValue) and (v.format_spec or v.conversion != -1) for v in n.values):
                return n
            done = True
            fmt = "".join(v.value.replace("{", "{{").replace("}", "}}") if isinstance(v, ast.Constant) else "{}" for v in n.values)
            return ast.Call(func=ast.Attribute(value=ast.Constant(fmt), attr="format", ctx=ast.Load()), args=[v.value for v in n.values if isinstance(v, ast.FormattedValue)], keywords=[])
    fn = R().visit(fn)
    return (fn, []) if done else None


@tr
def len_zero(fn, rng):
    done = False
    for x in ast.walk(fn):
        if isinstance(x, ast.Compare) and isinstance(x.left, ast.Call) and isinstance(x.left.func, ast.Name) and x.left.func.id == "len" and len(x.ops) == 1 and isinstance(x.comparators[0], ast.Constant) and x.comparators[0].value == 0:
            if isinstance(x.ops[0], ast.Eq):
                x.ops[0] = ast.Lt()
                x.comparators[0] = ast.Constant(1)
                done = True
            elif isinstance(x.ops[0], ast.Gt):
                x.ops[0] = ast.GtE()
                x.comparators[0] = ast.Constant(1)
                done = True
    return (fn, []) if done else None


@tr
def kwargs_to_pos(fn, rng):
    """self.m(a, b) -> keyword form is left to combos; here dict(...)/list() calls"""
    done = False

    class R(ast.NodeTransformer):
        def visit_Call(self, n):
            nonlocal done
            self.generic_visit(n)
            if isinstance(n.func, ast.Name) and n.func.id in ("list", "dict") and not n.args and not n.keywords:
                done = True
                return ast.List(elts=[], ctx=ast.Load()) if n.func.id == "list" else ast.Dict(keys=[], values=[])
            return n
    fn = R().visit(fn)
    return (fn, []) if done else None


@tr
def wrap_nested(fn, rng):
    """local closure for a returned expression"""
    s = fn.body[-1]
    if not isinstance(s, ast.Return) or s.value is None or isinstance(s.value, (ast.Name, ast.Constant)) or _uses_super([s]) or any(isinstance(x, ast.Yield) for x in ast.walk(fn)):
        return None
    h = _mk_helper(fn, "compute_", [], [ast.Return(value=s.value)])
    fn.body[-1:] = [h, ast.Return(value=ast.Call(func=N("compute_"), args=[], keywords=[]))]
    return fn, []


@tr
def split_cond_var(fn, rng):
    done = False
    n = 0
    for o, f, b in list(blocks(fn)):
        for s in list(b):
            if isinstance(s, ast.If) and not isinstance(s.test, (ast.Name, ast.Constant)):
                # elif chains: only when s is not the sole orelse of an if (then fine too: block)
                k = b.index(s)
                v = "cond_%d" % n
                n += 1
                b[k:k] = [ast.Assign(targets=[N(v, ast.Store())], value=s.test)]
                s.test = N(v)
                done = True
    return (fn, []) if done else None


# ---------------------------------------------------------------------------
def variants(src, cname, fname, tnames, seed):
    tree = ast.parse(src)
    owner = tree
    fn = None
    if cname:
        for part in cname.split("."):
            owner = next(x for x in owner.body if isinstance(x, ast.ClassDef) and x.name == part)
    idx = None
    for i, x in enumerate(owner.body):
        if isinstance(x, ast.FunctionDef) and x.name == fname:
            idx = i
    if idx is None:
        return None
    fn = owner.body[idx]
    decs = [ast.unparse(d) for d in fn.decorator_list]
    fn._method = bool(cname) and "staticmethod" not in decs and "classmethod" not in decs
    if cname and not fn._method:
        if any(t.startswith("extract") for t in tnames):
            return None
    rng = random.Random(seed)
    extra = []
    for t in tnames:
        m = fn._method
        r = TR[t](fn, rng)
        if r is None:
            return None
        fn, ex = r
        fn._method = m
        extra += ex
    owner.body[idx] = fn
    owner.body[idx + 1:idx + 1] = extra
    ast.fix_missing_locations(tree)
    out = ast.unparse(tree)
    ast.parse(out)
    if out == ast.unparse(ast.parse(src)):
        return None
    return out


def job(a):
    prop, rel, qual, alts, tn, seed = a
    key = "%s %s %s %s/%d" % (prop, rel, qual, "+".join(tn), seed)
    src = open("/repo/" + rel).read()
    base = _ctx0()
    fi, cls = base.fn(rel[len("skdecide/"):], qual)
    if fi is None:
        return key, "nofn", ""
    try:
        out = variants(open("/repo/" + fi.module.rel).read(), fi.cls.qual[len(fi.module.name) + 1:] if fi.cls else None, fi.name, tn, seed)
    except Exception as e:
        return key, "trerr", repr(e)
    if out is None:
        return key, "na", ""
    c = Ctx("X", prog=Program("/repo", overlay={fi.module.rel: out}))
    c._specfn = base._specfn
    try:
        c.check_against(rel, qual, alts)
    except Exception as e:
        return key, "crash", repr(e)
    if c.violations:
        return key, "ALARM", c.violations[0]["message"]
    if c.errors:
        return key, "ERROR", str(c.errors)
    return key, "ok", ""


_C = []


def _ctx0():
    if not _C:
        _C.append(Ctx("X"))
    return _C[0]


def main():
    args = sys.argv[1:]
    tsel = None
    j = 8
    combos = 0
    props = []
    pat = ""
    reps = 1
    while args:
        a = args.pop(0)
        if a == "-t":
            tsel = args.pop(0).split(",")
        elif a == "-j":
            j = int(args.pop(0))
        elif a == "-c":
            combos = int(args.pop(0))
        elif a == "-p":
            pat = args.pop(0)
        elif a == "-r":
            reps = int(args.pop(0))
        else:
            props.append(a.lower())
    jobs = []
    rng = random.Random(7)
    for f in sorted(glob.glob(os.path.join(H, "specs", "c*.py"))):
        p = os.path.basename(f)[:-3]
        if props and p not in props:
            continue
        g = {}
        for s in S.load_spec(f):
            g.setdefault((s.rel, s.qual), []).append(s)
        for (rel, qual), alts in g.items():
            if pat and pat not in qual:
                continue
            if qual.startswith("="):
                continue
            for t in (tsel or sorted(TR)):
                for r in range(reps if not t.startswith("extract") else max(reps, 2)):
                    jobs.append((p, rel, qual, alts, (t,), r))
            for k in range(combos):
                n = rng.randint(2, 4)
                jobs.append((p, rel, qual, alts, tuple(rng.sample(sorted(TR), n)), k))
    with mp.Pool(j) as pool:
        st = {}
        per = {}
        for key, r, msg in pool.imap_unordered(job, jobs, chunksize=8):
            st[r] = st.get(r, 0) + 1
            if r in ("ALARM", "ERROR", "crash", "trerr"):
                t = key.rsplit(" ", 1)[1]
                per[t.rsplit("/", 1)[0]] = per.get(t.rsplit("/", 1)[0], 0) + 1
                print(r, key, msg[:700].replace("\n", " "))
        print(st)
        print(sorted(per.items(), key=lambda x: -x[1]))


if __name__ == "__main__":
    main()
