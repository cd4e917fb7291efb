"""Def-use / control-dependence analysis: builds the gated value graph of a function.

`summarise(fi, cls)` gives a Summary with
  ret     gated term of the returned value
  events  effects (attribute stores, item stores, opaque calls, raises, yields) with
          the control condition they depend on and the loops that enclose them.
Loops are summarised once (their body is analysed with loop-carried placeholders) and
recognised folds (append / sum / any / all / first / last / max / min / dict and set
accumulation) are put in the same form as the corresponding comprehension.
Functions that do not belong to the confirmed vocabulary (i.e. freshly extracted
helpers), closures and lambdas are expanded at their call sites.
"""
import ast
import copy
import functools
from .terms import *
from .terms import _is_range
from . import canon as canon_mod
from .canon import implies
from .program import FuncInfo, ClassInfo

MUTATORS = {"append", "extend", "insert", "add", "remove", "discard", "pop", "popitem", "clear", "update",
            "setdefault", "sort", "reverse", "appendleft", "popleft", "add_edge", "add_node"}
IGNORED_CALLS = {"print", "logger.debug", "logger.info", "logger.warn", "logger.warning", "logger.error"}
PURE_BUILTINS = {"len", "range", "list", "set", "dict", "tuple", "sum", "any", "all", "max", "min", "sorted", "enumerate",
                 "zip", "isinstance", "issubclass", "abs", "int", "float", "bool", "str", "repr", "hash", "id", "type",
                 "getattr", "hasattr", "frozenset", "round", "reversed", "iter", "map", "filter", "callable", "divmod",
                 "super", "format", "ValueError", "TypeError", "NotImplementedError", "Exception", "RuntimeError"}
MAX_DEPTH = 10
LEN = T("g", "len")
LIST = T("g", "list")


class Event:
    __slots__ = ("term", "guard", "loops", "line", "func", "order", "held", "raw", "sees")

    def __init__(self, term, guard, loops, line, func, order, held=()):
        self.held = held
        self.raw = None
        self.sees = ()
        self.term = term
        self.guard = guard
        self.loops = loops
        self.line = line
        self.func = func
        self.order = order

    @property
    def kind(self):
        return self.term.op

    def where(self):
        return "%s:%d" % (self.func.module.rel, self.line)

    def __repr__(self):
        return "%s  [%s] if %s for %s" % (show(self.term), self.where(), show(self.guard), show(self.loops))


class State:
    __slots__ = ("env", "heap", "ver", "cells", "reads", "occ", "guard", "dead")

    def __init__(self):
        self.env = {}
        self.heap = {}
        self.ver = {}
        self.cells = {}
        self.reads = {}         # (fresh object, depth) -> when its elements were last replaced
        self.occ = {}           # draws made so far
        self.guard = TRUE
        self.dead = False

    def copy(self):
        s = State()
        s.env = dict(self.env)
        s.heap = dict(self.heap)
        s.ver = dict(self.ver)
        s.cells = dict(self.cells)
        s.reads = dict(self.reads)
        s.occ = dict(self.occ)
        s.guard = self.guard
        s.dead = self.dead
        return s


    def freeze(self, ref, depth=1):
        """The elements (at that depth) of ref are about to be replaced: values read from it so far keep what they saw."""
        memo = {}

        def resolved(x):
            """x with the reads of ref replaced by their current values"""
            if x is ref:
                return x
            if ref not in lazy_refs(x):
                return x
            r = memo.get(x)
            if r is None:
                if x.op == "i" and _depth(x, ref) >= depth:
                    r = self.read(x, resolved)
                else:
                    r = rebuild(x, resolved)
                memo[x] = r
            return r

        for m in (self.env, self.heap, self.ver):
            for k, v in list(m.items()):
                if ref in lazy_refs(v):
                    m[k] = resolved(v)
        for k, v in list(self.cells.items()):
            if k is not ref and ref in lazy_refs(v):
                self.cells[k] = resolved(v)
        if ref in self.cells and ref in lazy_refs(self.cells[ref]):
            self.cells[ref] = resolved(self.cells[ref])
        return resolved

    def read(self, x, resolved):
        v = self.ver.get(x)
        if v is not None:
            return v
        if x.op == "i":
            return index(self.read(x.args[0], resolved), resolved(x.args[1]))
        if x.op == "ref":
            return self.cells.get(x, x)
        return x


DRAWS = {"random", "choice", "choices", "randint", "randrange", "uniform", "normal", "shuffle", "rand", "randn", "normalvariate", "gauss",
         "next", "recv", "step", "reset", "poisson", "permutation"}


def _gated(it):
    """(condition, it when true, it when false) where a loop runs over one of two things"""
    if it.op == "ite":
        return it.args
    if it.op == "call" and it.args[0].op == "g" and it.args[0].args[0] in ("range", "enumerate", "reversed", "list", "tuple", "iter", "len") and len(it.args[1]) == 1 and not it.args[2]:
        g = _gated(it.args[1][0])
        if g is not None:
            return g[0], T("call", it.args[0], (g[1],), ()), T("call", it.args[0], (g[2],), ())
    return None


def one_long(t):
    return t.op == "call" and is_len(t) and t.args[1][0].op in ("list", "tuple") and len(t.args[1][0].args[0]) == 1 and t.args[1][0].args[0][0].op != "star"


def drawing(name):
    return name in DRAWS or "sample" in name


HOLDERS = {"list", "tuple", "set", "dict", "kv", "kvp", "concat", "union", "dcat", "comp", "ite", "upd"}
_LAZY = {}
_NONE = frozenset()


def lazy_refs(t):
    """fresh objects of which an element is named inside t without having been looked up"""
    r = _LAZY.get(t)
    if r is None:
        r = _NONE
        for x in children(t):
            y = lazy_refs(x)
            if y and y is not r:
                r = r | y if r else y
        if t.op == "i":
            b = t.args[0]
            while b.op == "i":
                b = b.args[0]
            if b.op == "ref":
                r = r | {b}
        _LAZY[t] = r
    return r


def _depth(x, ref):
    n = 0
    while x.op == "i":
        n += 1
        x = x.args[0]
    return n if x is ref else 0


def _merge_map(c, a, b, default):
    if a is b:
        return dict(a)
    out = {}
    for k in a.keys() | b.keys():
        x = a.get(k)
        y = b.get(k)
        if x is None:
            x = default(k)
        if y is None:
            y = default(k)
        if x is None or y is None:
            out[k] = x if y is None else y
            if x is not None or y is not None:
                out[k] = ite(c, x if x is not None else UNDEF, y if y is not None else UNDEF)
        else:
            out[k] = x if x is y else ite(c, x, y)
    return out


UNDEF = T("undef")


def read_early(body, names, target):
    """Names of the block that may be read, in one run of it, before that run gives them a value."""
    found = set()

    def expr(x, have, bound=frozenset()):
        if isinstance(x, ast.Name):
            if isinstance(x.ctx, ast.Load) and x.id in names and x.id not in have and x.id not in bound:
                found.add(x.id)
            return
        if isinstance(x, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp, ast.Lambda)):
            if isinstance(x, ast.Lambda):
                mine = {a.arg for a in x.args.args}
            else:
                mine = {y.id for g in x.generators for y in ast.walk(g.target) if isinstance(y, ast.Name)}
            bound = bound | mine
        for y in ast.iter_child_nodes(x):
            expr(y, have, bound)

    def stores(x):
        return {y.id for y in ast.walk(x) if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store)}

    def block(ss, have):
        """Names given a value where the block is left at its end; None when it never is."""
        for s in ss:
            if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                have = have | {s.name}
            elif isinstance(s, (ast.Return, ast.Raise, ast.Break, ast.Continue)):
                expr(s, have)
                return None
            elif isinstance(s, ast.If):
                expr(s.test, have)
                a, b = block(s.body, have), block(s.orelse, have)
                if a is None and b is None:
                    return None
                have = b if a is None else a if b is None else a & b
            elif isinstance(s, ast.For):
                expr(s.iter, have)
                block(s.body, have | stores(s.target))
                b = block(s.orelse, have)
                have = have if b is None else b
            elif isinstance(s, ast.While):
                expr(s.test, have)
                block(s.body, have)
                if isinstance(s.test, ast.Constant) and s.test.value:
                    have = have | {y for z in s.body for y in stores(z)}
            elif isinstance(s, ast.With):
                for i in s.items:
                    expr(i, have)
                    if i.optional_vars is not None:
                        have = have | stores(i.optional_vars)
                have = block(s.body, have)
                if have is None:
                    return None
            elif isinstance(s, ast.Try):
                a = block(s.body + s.orelse, have)
                hs = [block(h.body, have | ({h.name} if h.name else set())) for h in s.handlers]
                outs = [x for x in [a] + hs if x is not None]
                if not outs:
                    return None
                have = frozenset.intersection(*map(frozenset, outs))
                have = block(s.finalbody, have)
                if have is None:
                    return None
            elif isinstance(s, ast.AugAssign):
                expr(s.value, have)
                if isinstance(s.target, ast.Name):
                    expr(ast.Name(id=s.target.id, ctx=ast.Load()), have)
                    have = have | {s.target.id}
                else:
                    expr(s.target, have)
            else:
                expr(s, have)
                have = have | stores(s)
        return have

    block(body, frozenset(stores(target)) if target is not None else frozenset())
    return found


def merge(c, a, b):
    """State after an if: a when c holds, b otherwise."""
    if a.dead and b.dead:
        a = a.copy()
        return a
    if a.dead:
        return b
    if b.dead:
        return a
    if a.reads is not b.reads and a.reads != b.reads:
        for k in sorted(a.reads.keys() | b.reads.keys(), key=lambda k: (key_of(k[0]), k[1])):
            if a.reads.get(k) != b.reads.get(k):
                a.freeze(*k)
                b.freeze(*k)
    s = State()
    s.reads = dict(a.reads)
    for k, v in b.reads.items():
        if s.reads.get(k) != v:
            s.reads[k] = (v, s.reads.get(k))
    s.occ = {k: max(a.occ.get(k, 0), b.occ.get(k, 0)) for k in a.occ.keys() | b.occ.keys()}
    s.env = _merge_map(c, a.env, b.env, lambda k: None)
    s.heap = _merge_map(c, a.heap, b.heap, lambda k: k)
    s.ver = _merge_map(c, a.ver, b.ver, lambda k: k)
    s.cells = {}
    for k in a.cells.keys() | b.cells.keys():
        x, y = a.cells.get(k), b.cells.get(k)
        if x is None:
            s.cells[k] = y
        elif y is None:
            s.cells[k] = x
        else:
            s.cells[k] = x if x is y else ite(c, x, y)
    s.guard = or_(a.guard, b.guard)
    return s


class Frame:
    def __init__(self, fi, cls, defcls, depth):
        self.fi = fi
        self.cls = cls
        self.defcls = defcls
        self.depth = depth
        self.module = fi.module
        self.rets = []          # (guard, value, state)
        self.loopstack = []
        self.base_guard = TRUE


class Loop:
    def __init__(self):
        self.breaks = []
        self.continues = []
        self.rets = []
        self.raises = []


class Summary:
    def __init__(self, fi, cls):
        self.fi = fi
        self.cls = cls
        self.ret = NONE
        self.rets = []
        self.events = []
        self.calls = []
        self.raises = []
        self.end_heap = {}
        self.fallthrough = FALSE

    def where(self):
        return self.fi.where()


class Engine:
    def __init__(self, prog, vocab, inline=None, extra_resolve=None):
        self.prog = prog
        if not getattr(prog, "enums_known", False):
            prog.enums_known = True
            canon_mod.ENUMS.clear()
            canon_mod.ENUMS.update(q for q, k in prog.classes.items() if _is_enum(k))
        self.vocab = vocab
        self.inline_extra = inline or (lambda fi: False)
        self._n = 0
        self._order = 0
        self.closures = {}
        self.el_depth = {}
        self.sets = set()
        self.max_depth = MAX_DEPTH
        self.spec_module = None
        self.trace_loads = False
        self.lpstack = []
        self.spec_funcs = {}
        self.lamdepth = 0

    # ------------------------------------------------------------------ API
    def summarise(self, fi, cls=None, bind=None):
        """bind: optional {param name: term}."""
        self._order = 0
        self.events = []
        self.calls = []
        self.loops = ()
        self.held = ()
        self.phmap = {}
        self.stack = [fi]
        st = State()
        fr = Frame(fi, cls, fi.cls, 0)
        self._bind_params(fi, st, bind)
        st = self.block(fi.node.body, st, fr)
        s = Summary(fi, cls)
        if not st.dead:
            fr.rets.append((st.guard, NONE, st))
            s.fallthrough = st.guard
        s.rets = [(g, self.deref(v, stt)) for g, v, stt in fr.rets]
        s.ret = self._ret_term(s.rets)
        s.end_state = fr.rets
        s.final = self._final_state(fr)
        if s.final is not None:
            for e in self.events:
                if e.raw is not None:
                    v = self.deref(e.raw, s.final)
                    e.term = T(e.term.op, *e.term.args[:2], v)
            self.events = dead_stores(self.events, self.prog)
        s.all_events = self.events
        s.events = [e for e in self.events if e.kind != "call"]
        s.calls = [e for e in self.events if e.kind == "call"]
        return s

    lpstack = ()
    expanding = set()
    spec_data = {}
    relaxed = False  # pair up zipped sequences by index

    def _final_state(self, fr):
        st = None
        for g, v, s in reversed(fr.rets):
            s2 = s.copy()
            s2.dead = False
            st = s2 if st is None else merge(g, s2, st)
        return st

    def _ret_term(self, rets):
        # a path that raises returns nothing: it must not borrow a neighbour's value
        r = T("noreturn")
        for g, v in reversed(rets):
            r = ite(g, v, r)
        return r

    def _bind_params(self, fi, st, bind):
        a = fi.node.args
        ps = [x.arg for x in a.posonlyargs + a.args]
        k = fi.kind()
        i = 0
        for n, p in enumerate(ps):
            if n == 0 and k in ("method", "class", "property"):
                st.env[p] = T("self")
                continue
            st.env[p] = T("p", i)
            i += 1
        if a.vararg:
            st.env[a.vararg.arg] = T("p", "*")
        for x in a.kwonlyargs:
            st.env[x.arg] = T("p", "kw:" + x.arg)
        if a.kwarg:
            st.env[a.kwarg.arg] = T("p", "**")
        if bind:
            for p, t in bind.items():
                if p in st.env:
                    st.env[p] = t

    # --------------------------------------------------------------- events
    def emit(self, term, st, fr, node):
        self._order += 1
        e = Event(self.deref(term, st), st.guard, tuple(self.deref(g, st) for g in self.loops), getattr(node, "lineno", fr.fi.node.lineno), fr.fi, self._order, self.held)
        self.events.append(e)
        return e

    # --------------------------------------------------------------- blocks
    def block(self, stmts, st, fr):
        for k, s in enumerate(stmts):
            if st.dead:
                break
            rest = stmts[k + 1:]
            if 1 <= len(rest) <= 3 and isinstance(s, ast.While) and isinstance(s.test, ast.Constant) and s.test.value and not s.orelse \
                    and isinstance(rest[-1], ast.Return) and all(isinstance(x, (ast.Return, ast.Assign, ast.AugAssign, ast.Expr)) for x in rest) \
                    and 1 <= _count_breaks(s.body) <= 4:
                # the only ways on from here are its breaks
                x = ast.While(test=s.test, body=[z for b in s.body for z in _leave(b, rest)], orelse=[])
                return self.stmt(ast.fix_missing_locations(ast.copy_location(x, s)), st, fr)
            st = self.stmt(s, st, fr)
        return st

    def stmt(self, n, st, fr):
        m = getattr(self, "s_" + type(n).__name__, None)
        if m is None:
            return st
        return m(n, st, fr)

    def s_Pass(self, n, st, fr):
        return st

    def s_Expr(self, n, st, fr):
        if isinstance(n.value, ast.Constant):
            return st
        if isinstance(n.value, (ast.Yield, ast.YieldFrom)):
            v = self.ev(n.value.value, st, fr) if n.value.value else NONE
            self.emit(T("yield", v), st, fr, n)
            return st
        self.ev(n.value, st, fr)
        return st

    def s_Return(self, n, st, fr):
        v = self.ev(n.value, st, fr) if n.value is not None else NONE
        self._do_return(v, st, fr)
        return st

    def _do_return(self, v, st, fr):
        s = st.copy()
        if fr.loopstack:
            fr.loopstack[-1].rets.append((st.guard, v, s))
        else:
            fr.rets.append((st.guard, v, s))
        st.dead = True

    def s_Raise(self, n, st, fr):
        v = self.ev(n.exc, st, fr) if n.exc is not None else T("reraise")
        exc = v
        if exc.op == "call":
            exc = exc.args[0]
        self.emit(T("raise", exc), st, fr, n)
        if self.lpstack and self.lpstack[-1] is not None:
            self.lpstack[-1].raises.append(st.guard)
        st.dead = True
        return st

    def s_Assert(self, n, st, fr):
        keep = len(self.events)
        c = self.cond(n.test, st, fr)
        del self.events[keep:]
        self.emit(T("assert", c), st, fr, n)
        return st

    def s_Delete(self, n, st, fr):
        for t in n.targets:
            if isinstance(t, ast.Subscript):
                b = self.ev(t.value, st, fr)
                k = self.ev(t.slice, st, fr)
                self.mutate(b, "pop", (k,), (), st, fr, n, delitem=True)
            elif isinstance(t, ast.Attribute):
                b = self.ev(t.value, st, fr)
                self.emit(T("delattr", b, t.attr), st, fr, n)
            elif isinstance(t, ast.Name):
                st.env.pop(t.id, None)
        return st

    def s_Assign(self, n, st, fr):
        if len(n.targets) == 1 and isinstance(n.targets[0], (ast.Tuple, ast.List)) and isinstance(n.value, (ast.Tuple, ast.List)) \
                and len(n.targets[0].elts) == len(n.value.elts) and not any(isinstance(x, ast.Starred) for x in n.targets[0].elts + n.value.elts):
            vs = [self.ev(x, st, fr) for x in n.value.elts]
            for t, v in zip(n.targets[0].elts, vs):
                self.assign(t, v, st, fr, n)
            return st
        v = self.ev(n.value, st, fr)
        if isinstance(n.value, ast.Lambda) and isinstance(n.targets[0], ast.Name) and v in self.closures and len(self.closures[v]) > 2:
            self.closures[v][2].env[n.targets[0].id] = v  # a recursive lambda refers to itself
        for t in n.targets:
            self.assign(t, v, st, fr, n)
        return st

    def s_AnnAssign(self, n, st, fr):
        if n.value is not None:
            self.assign(n.target, self.ev(n.value, st, fr), st, fr, n)
        return st

    def s_AugAssign(self, n, st, fr):
        t = n.target
        if isinstance(t, (ast.Attribute, ast.Subscript)) and isinstance(n.op, ast.Add) and isinstance(n.value, (ast.List, ast.ListComp)) \
                and not any(isinstance(x, ast.Starred) for x in getattr(n.value, "elts", ())):
            # in place on a list: the method that does the same
            lst = copy.copy(t)
            lst.ctx = ast.Load()
            for name, v in [("append", x) for x in n.value.elts] if isinstance(n.value, ast.List) else [("extend", n.value)]:
                c = ast.Call(func=ast.Attribute(value=lst, attr=name, ctx=ast.Load()), args=[v], keywords=[])
                self.ev(ast.fix_missing_locations(ast.copy_location(c, n)), st, fr)
            return st
        if isinstance(t, ast.Name):
            cur = self.ev(ast.Name(id=t.id, ctx=ast.Load(), lineno=n.lineno), st, fr)
            if cur.op in ("p", "a", "i", "el") and isinstance(n.op, ast.Add) and isinstance(n.value, ast.List) and not any(isinstance(x, ast.Starred) for x in n.value.elts):
                for x in n.value.elts:
                    c = ast.Call(func=ast.Attribute(value=ast.Name(id=t.id, ctx=ast.Load()), attr="append", ctx=ast.Load()), args=[x], keywords=[])
                    self.ev(ast.fix_missing_locations(ast.copy_location(c, n)), st, fr)
                return st
            v = self.ev(n.value, st, fr)
            if cur.op == "ref" and isinstance(n.op, ast.Add):
                st.cells[cur] = concat(st.cells[cur], self.content(v, st))
                return st
            if cur in self.sets and isinstance(n.op, ast.BitOr):
                self.cell_method(cur, "update", (v,), (), st, fr, n)
                return st
            st.env[t.id] = self.binop(type(n.op).__name__, cur, v, st)
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value, st, fr)
            cur = self.attr(b, t.attr, st, fr)
            v = self.ev(n.value, st, fr)
            if cur.op == "ref" and isinstance(n.op, ast.Add):
                st.cells[cur] = concat(st.cells[cur], self.content(v, st))
                return st
            self.store_attr(b, t.attr, self.binop(type(n.op).__name__, cur, v, st), st, fr, n)
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value, st, fr)
            k = self.ev(t.slice, st, fr)
            cur = self.subscript(b, k, st)
            v = self.ev(n.value, st, fr)
            self.store_item(b, k, self.binop(type(n.op).__name__, cur, v, st), st, fr, n)
        return st

    def assign(self, t, v, st, fr, n):
        if isinstance(t, ast.Name):
            st.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            k = len(t.elts)
            for i, e in enumerate(t.elts):
                if isinstance(e, ast.Starred):
                    self.assign(e.value, T("slice_of", v, i, i - k + 1), st, fr, n)
                else:
                    self.assign(e, self.subscript(v, num(i), st), st, fr, n)
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value, st, fr)
            self.store_attr(b, t.attr, v, st, fr, n)
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value, st, fr)
            k = self.ev(t.slice, st, fr)
            self.store_item(b, k, v, st, fr, n)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st, fr, n)

    def store_attr(self, b, attr, v, st, fr, n):
        loc = T("a", b, attr)
        e = self.emit(T("store", b, attr, v), st, fr, n)
        if v.op == "ref" or fresh_gate(v):
            e.raw = v
        st.heap[loc] = v
        st.ver.pop(loc, None)

    def grown(self, ref, st):
        """elements are about to be added at the end: only reads from the end see it"""
        return self.replaced(ref, st)

    def replaced(self, ref, st, depth=1):
        f = st.freeze(ref, depth)
        st.reads[(ref, depth)] = self._fresh()
        return f

    def store_item(self, b, k, v, st, fr, n):
        if fresh_gate(b):
            return self.fork(b, st, lambda x, s: self.store_item(x, k, v, s, fr, n))
        if b.op == "ref":
            c = st.cells[b]
            k = self.deref(k, st)
            if c.op in ("dict", "dcat") or k.op != "slice":
                v = self.replaced(b, st)(v)
                st.cells[b] = dict_set(st.cells[b], k, v)
                return
        # nested fresh structure: x[k1][k2] = v where x is fresh
        root, path = b, [self.deref(k, st)]
        while root.op == "i":
            path.insert(0, root.args[1])
            root = root.args[0]
        if root.op == "ref" and len(path) > 1:
            v = self.replaced(root, st, len(path))(v)
            st.cells[root] = dict_set(st.cells[root], T("tuple", tuple(path)), v, path=True)
            return
        self.emit(T("setitem", b, k, v), st, fr, n)
        cur = st.ver.get(b, b)
        st.ver[b] = T("upd", cur, self.deref(k, st), self.deref(v, st))
        st.heap[T("i", b, k)] = v

    # ------------------------------------------------------------- branches
    def s_If(self, n, st, fr):
        c = self.cond(n.test, st, fr)
        return self.branch(c, lambda s: self.block(n.body, s, fr), lambda s: self.block(n.orelse, s, fr), st)

    def branch(self, c, fa, fb, st):
        if c is TRUE:
            return fa(st)
        if c is FALSE:
            return fb(st)
        a = st.copy()
        b = st.copy()
        a.guard = and_(st.guard, c)
        b.guard = and_(st.guard, not_(c))
        if a.guard is FALSE:
            a.dead = True
        if b.guard is FALSE:
            b.dead = True
        a = fa(a) if not a.dead else a
        b = fb(b) if not b.dead else b
        return merge(c, a, b)

    def fork(self, v, st, f):
        """f(leaf, state) on each fresh object a gated value may be, in place."""
        if v.op == "ite":
            c, x, y = v.args
            if x is UNDEF or y is UNDEF:
                return self.fork(y if x is UNDEF else x, st, f)
            out = []

            def go(z):
                def run(s):
                    out.append(self.fork(z, s, f))
                    return s
                return run
            r = self.branch(c, go(x), go(y), st)
            for a in State.__slots__:
                setattr(st, a, getattr(r, a))
            return ite(c, out[0], out[1]) if len(out) == 2 else out[0]
        return f(v, st)

    def s_Match(self, n, st, fr):
        return st

    def s_With(self, n, st, fr):
        held = self.held
        locks = []
        for it in n.items:
            v = self.ev(it.context_expr, st, fr)
            e = T("enter", v)
            self.emit(e, st, fr, n)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, e, st, fr, n)
            d = self.deref(v, st)
            if d.op in ("a", "i", "p", "el") or (d.op == "call" and d.args[0].op == "a" and d.args[0].args[1] == "get_lock"):
                locks.append(d)
        self.held = held + tuple(locks)
        st = self.block(n.body, st, fr)
        self.held = held
        return st

    def s_Try(self, n, st, fr):
        pre = st.copy()
        g0 = st.guard
        excs = []
        for h in n.handlers:
            if h.type is None:
                ty = "*"
            else:
                ty = ast.unparse(h.type)
            excs.append(T("exc", ty))
        s = st.copy()
        rets = fr.loopstack[-1].rets if fr.loopstack else fr.rets
        mark = len(rets)
        if excs:
            self.lpstack.append(None)
        s = self.block(n.body, s, fr)
        if excs:
            self.lpstack.pop()
            ok = and_(*[not_(x) for x in excs])
            rets[mark:] = [(and_(g, ok), v, s2) for g, v, s2 in rets[mark:]]
        s = self.block(n.orelse, s, fr) if not s.dead else s
        out = s
        for h, x in reversed(list(zip(n.handlers, excs))):
            hs = pre.copy()
            hs.guard = and_(g0, x)
            if h.name:
                hs.env[h.name] = T("excval", x)
            hs = self.block(h.body, hs, fr)
            out = merge(x, hs, out)
        if n.finalbody:
            if out.dead:
                f = pre.copy()
                self.block(n.finalbody, f, fr)
            else:
                out = self.block(n.finalbody, out, fr)
        return out

    # ---------------------------------------------------------------- loops
    def s_Break(self, n, st, fr):
        if fr.loopstack:
            fr.loopstack[-1].breaks.append(st.copy())
        st.dead = True
        return st

    def s_Continue(self, n, st, fr):
        if fr.loopstack:
            fr.loopstack[-1].continues.append(st.copy())
        st.dead = True
        return st

    def iter_of(self, it, st):
        """Canonical iterable of an evaluated iterator term: (gen term, element term)."""
        it = self.content(it, st)
        while True:
            if it.op == "call" and not it.args[2]:
                f, a = it.args[0], it.args[1]
                if f.op == "g" and f.args[0] in ("list", "tuple", "iter") and len(a) == 1:
                    it = a[0]
                    continue
                if f.op == "a" and f.args[1] == "keys" and not a:
                    it = f.args[0]
                    continue
            break
        if it.op == "call" and not it.args[2] and not (it.args[0].op == "a" and it.args[0].args[0].op == "comp"):
            f, a = it.args[0], it.args[1]
            if f.op == "a" and f.args[1] == "items" and not a:
                d = f.args[0]
                k = self.el(d)
                return d, T("tuple", (k, T("i", d, k)))
            if f.op == "a" and f.args[1] == "values" and not a:
                d = f.args[0]
                return d, T("i", d, self.el(d))
            if f.op == "g" and f.args[0] == "enumerate" and len(a) == 1:
                x = self.iter_of(a[0], st)
                b = x[0]
                if b.op == "fuse" and len(b.args[0].args[2]) == 1 and b.args[0].args[3] is TRUE:
                    b = b.args[0].args[2][0]   # the position in the comprehension is the position in what it iterates over
                n = self.el_depth.get(b, 0)
                i = T("el" if _is_range(b) else "idx", b, n)
                if b.op == "fuse" and len(b.args[0].args[2]) == 1 and b.args[0].args[2][0].op != "zip":
                    # the position among those kept: how many have been so far
                    i = remake("lc", (num(0), ite(b.args[0].args[3], padd(T("ph0"), num(1)), T("ph0")), NONE))
                return x[0], T("tuple", (i, x[1]))
            if f.op == "g" and f.args[0] == "reversed" and len(a) == 1 and a[0].op not in ("call", "comp"):
                return self.iter_of(index(a[0], T("slice", NONE, NONE, num(-1))), st)
            if f.op == "g" and f.args[0] == "range" and len(a) == 1 and is_len(a[0]):
                x = a[0].args[1][0]
                n = self.el_depth.get(x, 0)
                return x, T("idx", x, n)
            if f.op == "g" and f.args[0] == "range" and len(a) == 2 and is_num(a[0]) and a[0].args[1] == 0:
                return self.iter_of(T("call", f, (a[1],), ()), st)
            if f.op == "g" and f.args[0] == "range" and len(a) == 2:
                # counting from somewhere else is counting from 0, shifted
                x = self.iter_of(T("call", f, (psub(a[1], a[0]),), ()), st)
                if _is_range(x[0]):
                    return x[0], padd(x[1], a[0])
            if f.op == "g" and f.args[0] == "zip":
                xs = [self.iter_of(x, st) for x in a]
                if xs and all(x[0].op == "fuse" for x in xs) and len({x[0].args[0].args[2:] for x in xs}) == 1:
                    # in step over comprehensions of the same iteration
                    c = xs[0][0].args[0]
                    e = T("tuple", tuple(x[1] for x in xs))
                    return T("fuse", T("comp", "list", e, c.args[2], c.args[3])), e
                if self.relaxed and all(is_path(x[0]) for x in xs):
                    g = xs[0][0]
                    i = T("idx", g, self.el_depth.get(g, 0))
                    return g, T("tuple", (xs[0][1],) + tuple(index(x[0], i) if x[1] is self.el(x[0]) else subst(x[1], {self.el(x[0]): index(x[0], i)}) for x in xs[1:]))
                return T("zip", tuple(x[0] for x in xs)), T("tuple", tuple(x[1] for x in xs))
        d = it
        view = ""
        if it.op == "call" and it.args[0].op == "a" and it.args[0].args[1] in ("items", "values") and not it.args[1]:
            d, view = it.args[0].args[0], it.args[0].args[1]
        if d.op == "comp" and d.args[0] == "dict" and len(d.args[2]) == 1 and d.args[1].op == "kv" and d.args[2][0].op != "zip":
            k, v = d.args[1].args
            if k.op in ("el", "idx") and k.args[0] is d.args[2][0] and k.args[1] == self.el_depth.get(k.args[0], 0) and (
                    k.op == "idx" or k.args[0].op in ("dict", "set") or _is_range(k.args[0]) or any(y.op == "i" and y.args[0] is k.args[0] and y.args[1] is k for y in subterms(v))):
                e = T("tuple", (k, v)) if view == "items" else v if view else k
                return T("fuse", T("comp", "list", e, d.args[2], d.args[3])), e
        if it.op == "comp" and it.args[0] in ("list", "gen", "set") and len(it.args[2]) >= 1 and it.args[0] != "set":
            # iterating over a comprehension: fuse
            return T("fuse", it), it.args[1]
        return it, self.el(it)

    def el(self, x):
        return T("el", x, self.el_depth.get(x, 0))

    def push_gen(self, g):
        for x in (g.args[0] if g.op == "zip" else (g,)):
            self.el_depth[x] = self.el_depth.get(x, 0) + 1

    def pop_gen(self, g):
        for x in (g.args[0] if g.op == "zip" else (g,)):
            self.el_depth[x] -= 1
            if not self.el_depth[x]:
                del self.el_depth[x]

    def s_For(self, n, st, fr):
        r = self._index_loop(n, st, fr)
        if r is not None:
            return r
        it = self.ev(n.iter, st, fr)
        it = self.content(it, st)
        gate = _gated(it)
        if gate is not None and not self._in_split:
            k = "$it%d" % len(self.stack)
            x = ast.copy_location(ast.For(target=n.target, iter=ast.Name(id=k, ctx=ast.Load(), lineno=n.lineno), body=n.body, orelse=n.orelse, lineno=n.lineno), n)

            def half(v, j):
                def go(s):
                    for y, z in list(s.env.items()):
                        if z.op == "ite" and z.args[0] is gate[0]:
                            s.env[y] = z.args[j]   # which of the two it is is known here
                    s.env[k] = v
                    return self.s_For(x, s, fr)
                return go
            return self.branch(gate[0], half(gate[1], 1), half(gate[2], 2), st)
        if it.op == "call" and it.args[0].op == "g" and it.args[0].args[0] == "range" and len(it.args[1]) == 1 and not it.args[2] and not n.orelse \
                and not _breaks(n.body) and (is_num(it.args[1][0]) and it.args[1][0].args[1] == 1 or one_long(it.args[1][0])):
            self.assign(n.target, num(0), st, fr, n)
            return self.block(n.body, st, fr)
        gen, elt = self.iter_of(self.deref_shallow(it, st), st)
        if gen.op in ("list", "tuple") and len(gen.args[0]) <= 8 and all(x.op != "star" for x in gen.args[0]) and not n.orelse \
                and not _breaks(n.body):
            d = self.el_depth.get(gen, 0)
            for j, x in enumerate(gen.args[0]):
                if st.dead:
                    break
                self.assign(n.target, x if elt is self.el(gen) else subst(elt, {self.el(gen): x, T("idx", gen, d): num(j)}), st, fr, n)
                st = self.block(n.body, st, fr)
            return st
        gens, pre = ((gen,), TRUE)
        if gen.op == "fuse":
            gens, pre = gen.args[0].args[2], gen.args[0].args[3]
        return self.loop(n, gens, pre, elt, n.body, n.orelse, st, fr, target=n.target)

    def _index_loop(self, n, st, fr):
        """for i in range(len(xs)) where xs is one of two lists, or a short literal list"""
        x = n.iter
        if not (isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "range" and len(x.args) == 1 and not x.keywords):
            return None
        x = x.args[0]
        if not (isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "len" and len(x.args) == 1 and isinstance(x.args[0], ast.Name)):
            return None
        k = x.args[0].id
        v = st.env.get(k)
        if v is None or any(isinstance(y, ast.Name) and y.id == k and not isinstance(y.ctx, ast.Load) for b in n.body for y in ast.walk(b)):
            return None
        if v.op == "ite" and not self._in_split:
            def half(j):
                def go(s):
                    for y, z in list(s.env.items()):
                        if z.op == "ite" and z.args[0] is v.args[0]:
                            s.env[y] = z.args[j]
                    return self.s_For(n, s, fr)
                return go
            return self.branch(v.args[0], half(1), half(2), st)
        c = self.content(v, st)
        if c.op in ("list", "tuple") and len(c.args[0]) == 1 and c.args[0][0].op != "star" and not n.orelse \
                and not _breaks(n.body):
            self.assign(n.target, num(0), st, fr, n)
            return self.block(n.body, st, fr)
        if c.op == "comp" and c.args[0] == "list" and c.args[3] is not TRUE and isinstance(n.target, ast.Name):
            # only its elements are looked at: a loop over them
            e = "$e%d" % n.lineno
            body = [_Elements(k, n.target.id, e).visit(copy.deepcopy(b)) for b in n.body]
            names = [y for b in body for y in ast.walk(b) if isinstance(y, ast.Name) and (y.id == n.target.id or y.id == k)]
            after = [y for y in ast.walk(fr.fi.node) if isinstance(y, ast.Name) and y.id == n.target.id and isinstance(y.ctx, ast.Load) and y.lineno > getattr(n, "end_lineno", 10 ** 9)]
            if not names and not after:
                x = ast.For(target=ast.Name(id=e, ctx=ast.Store()), iter=ast.Name(id=k, ctx=ast.Load()), body=body, orelse=n.orelse)
                return self.s_For(ast.fix_missing_locations(ast.copy_location(x, n)), st, fr)
        return None

    def s_While(self, n, st, fr):
        r = self._counted(n, st, fr)
        if r is not None:
            i, lim, body = r
            n2 = ast.For(target=ast.Name(id=i, ctx=ast.Store()), iter=ast.Call(func=ast.Name(id="range", ctx=ast.Load()), args=[lim], keywords=[]),
                         body=body, orelse=[])
            ast.copy_location(n2, n)
            ast.fix_missing_locations(n2)
            st = self.s_For(n2, st, fr)
            if not st.dead:
                st.env[i] = T("after", st.env.get(i, UNDEF))
            return st
        test, body = n.test, n.body
        while not n.orelse and body and isinstance(body[0], ast.If):
            # while A: if B: break; ...   is   while A and not B: ...
            b = body[0]
            if isinstance(test, ast.Constant) and test.value and isinstance(b.body[-1], (ast.Return, ast.Raise)) and not _breaks(b.body):
                # while True: if B: return ...   is   while not B: ... else: return ...
                c = ast.UnaryOp(op=ast.Not(), operand=b.test)
                x = ast.While(test=c, body=list(b.orelse) + body[1:] or [ast.Pass()], orelse=list(b.body))
                return self.s_While(ast.fix_missing_locations(ast.copy_location(x, n)), st, fr)
            if len(b.body) == 1 and isinstance(b.body[0], ast.Break):
                c, rest = ast.UnaryOp(op=ast.Not(), operand=b.test), list(b.orelse)
            elif len(b.orelse) == 1 and isinstance(b.orelse[0], ast.Break):
                c, rest = b.test, list(b.body)
            else:
                break
            if not (isinstance(test, ast.Constant) and test.value):
                c = ast.BoolOp(op=ast.And(), values=[test, c])
            test, body = ast.fix_missing_locations(ast.copy_location(c, n.test)), rest + body[1:]
        if not body:
            body = [ast.copy_location(ast.Pass(), n)]
        return self.loop(n, None, TRUE, None, body, n.orelse, st, fr, test=test)

    def _counted(self, n, st, fr):
        """i = 0; while i < lim: ...; i += 1   (lim not changed, i changed only there)"""
        t = n.test
        more = None
        if isinstance(t, ast.BoolOp) and isinstance(t.op, ast.And):
            more = t.values[1] if len(t.values) == 2 else ast.BoolOp(op=ast.And(), values=t.values[1:])
            t = t.values[0]
        if n.orelse or len(n.body) < 2 or not isinstance(t, ast.Compare) or len(t.ops) != 1:
            return None
        if isinstance(t.ops[0], ast.Lt) and isinstance(t.left, ast.Name):
            i, lim = t.left.id, t.comparators[0]
        elif isinstance(t.ops[0], ast.Gt) and isinstance(t.comparators[0], ast.Name):
            i, lim = t.comparators[0].id, t.left
        else:
            return None
        v = st.env.get(i)
        if v is None or not is_num(v) or v.args[1] != 0:
            return None
        def is_step(last):
            return isinstance(last, ast.AugAssign) and isinstance(last.target, ast.Name) and last.target.id == i and isinstance(last.op, ast.Add) \
                and isinstance(last.value, ast.Constant) and last.value.value == 1 \
                or isinstance(last, ast.Assign) and ast.unparse(last) in ("%s = %s + 1" % (i, i), "%s = 1 + %s" % (i, i))

        steps = [k for k, x in enumerate(n.body) if is_step(x)]
        if len(steps) != 1:
            return None
        k = steps[0]
        rest = n.body[k + 1:]
        if _breaks(rest):
            return None
        if any(isinstance(y, ast.Name) and y.id == i for x in rest for y in ast.walk(x)):
            rest = [ast.fix_missing_locations(_Next(i).visit(copy.deepcopy(x))) for x in rest]
        body = n.body[:k] + rest

        def cont(x):
            if isinstance(x, ast.Continue):
                return True
            if isinstance(x, (ast.For, ast.While, ast.FunctionDef, ast.Lambda)):
                return False
            return any(cont(y) for y in ast.iter_child_nodes(x))

        if any(cont(x) for x in body):
            return None
        names = {x.id for x in ast.walk(lim) if isinstance(x, ast.Name)}
        attrs = {ast.unparse(x) for x in ast.walk(lim) if isinstance(x, (ast.Name, ast.Attribute))}
        for b in body:
            for x in ast.walk(b):
                if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)) and (x.id == i or x.id in names):
                    return None
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, (ast.Store, ast.Del)) and ast.unparse(x) in attrs:
                    return None
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in MUTATORS and ast.unparse(x.func.value) in attrs:
                    return None
        if more is not None:
            body = [ast.If(test=ast.UnaryOp(op=ast.Not(), operand=more), body=[ast.Break()], orelse=[])] + body
            for x in ast.walk(body[0]):
                ast.copy_location(x, n)
        return i, lim, body

    def _is_table(self, dotted):
        mod, _, nm = dotted.rpartition(".")
        m = self.prog.modules.get(mod)
        return m is not None and nm in m.assigns

    def loop(self, n, gens, pre, elt, body, orelse, st, fr, target=None, test=None):
        # pass 1: discover loop-carried locations
        names = set()
        for b in body:
            for x in ast.walk(b):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                    names.add(x.id)
        if target is not None:
            for x in ast.walk(target):
                if isinstance(x, ast.Name):
                    names.discard(x.id)
        for k in [k for k in names if st.env.get(k) in self.sets]:
            into = {id(x.target) for b in body for x in ast.walk(b) if isinstance(x, ast.AugAssign) and isinstance(x.op, ast.BitOr)}
            if all(id(x) in into for b in body for x in ast.walk(b) if isinstance(x, ast.Name) and x.id == k and not isinstance(x.ctx, ast.Load)):
                names.discard(k)    # the same set, only added to
        outer_loops = self.loops
        outer_guard = st.guard

        def run(ph_env, ph_heap, ph_ver, ph_cells):
            s = st.copy()
            s.guard = TRUE
            for k, p in ph_env.items():
                s.env[k] = p
            for k, p in ph_heap.items():
                s.heap[k] = p
            for k, p in ph_ver.items():
                s.ver[k] = p
            for k, p in ph_cells.items():
                s.cells[k] = p
            lp = Loop()
            fr.loopstack.append(lp)
            self.lpstack.append(lp)
            g2 = gens
            c = TRUE
            if gens is None:
                c = self.cond(test, s, fr)
                g2 = (T("while", self.deref(c, s)),)
            for g in g2:
                self.push_gen(g)
            self.loops = outer_loops + g2
            s.guard = pre if gens is not None else TRUE
            if target is not None:
                self.assign(target, elt, s, fr, n)
            start = s.copy()
            s = self.block(body, s, fr)
            for g in g2:
                self.pop_gen(g)
            fr.loopstack.pop()
            self.lpstack.pop()
            self.loops = outer_loops
            # merge continue states
            end = s
            for cs in reversed(lp.continues):
                end = merge(cs.guard, cs, end)
            return lp, g2, end, start

        mark = len(self.events)
        order0 = self._order
        lp, g2, end, start = run({}, {}, {}, {})
        exits = [end] + lp.breaks + [x[2] for x in lp.rets]
        allst = [s for s in exits]
        ph_env = {}
        early = read_early(body, names, target)
        for k in sorted(names):
            if k in st.env or k in early:
                ph_env[k] = T("ph", "v:" + k, self._fresh())
        heap_ch = set()
        ver_ch = set()
        cell_ch = set()
        for s in allst:
            for k, v in s.heap.items():
                if st.heap.get(k) is not v:
                    heap_ch.add(k)
            for k, v in s.ver.items():
                if st.ver.get(k) is not v:
                    ver_ch.add(k)
            for k, v in s.cells.items():
                if k in st.cells and st.cells[k] is not v:
                    cell_ch.add(k)
        inside = lambda t: any(x.op in ("el", "idx") and any(x.args[0] is g or (g.op == "zip" and x.args[0] in g.args[0]) for g in g2) for x in subterms(t))
        varying = {k for k in names}
        ph_heap = {k: T("ph", "h", self._fresh()) for k in sorted(heap_ch, key=key_of) if not inside(k)}
        ph_ver = {k: T("ph", "w", self._fresh()) for k in sorted(ver_ch, key=key_of) if not inside(k)}
        ph_cells = {k: T("ph", "c", self._fresh()) for k in sorted(cell_ch, key=key_of)}
        touched = {k for s in allst for k, v in s.reads.items() if k[0] in st.cells and st.reads.get(k) != v}
        for k in sorted(touched, key=lambda k: (key_of(k[0]), k[1])):
            self.replaced(k[0], st, k[1])
        if ph_env or ph_heap or ph_ver or ph_cells:
            del self.events[mark:]
            self._order = order0
            lp, g2, end, start = run(ph_env, ph_heap, ph_ver, ph_cells)
        # --- fold
        brk = or_(*[b.guard for b in lp.breaks]) if lp.breaks else FALSE
        stop = or_(brk, *([r[0] for r in lp.rets] + lp.raises)) if (lp.breaks or lp.rets or lp.raises) else FALSE
        out = st.copy()

        def final_val(getter, p):
            u = getter(end) if not end.dead else p
            if gens is not None and pre is not TRUE and u is not p:
                u = ite(pre, u, p)
            vb = None
            if lp.breaks:
                vb = at_breaks([(b.guard, getter(b)) for b in lp.breaks])
            return u, vb

        def at_breaks(cases):
            """Value at whichever break is taken, whatever their order."""
            by = {}
            for g, x in cases:
                by[x] = or_(by[x], g) if x in by else g
            if len(by) == 1:
                return cases[0][1]
            nameless = {}

            def rank(x):
                for y in subterms(x):
                    if y.op == "ph":
                        nameless.setdefault(y, T("ph0"))
                y = subst(x, nameless)
                return len(list(subterms(y))), key_of(y)

            rest = sorted(by, key=rank)
            vb = rest[0]
            for x in rest[1:]:
                vb = ite(by[x], x, vb)
            return vb

        older = set(st.cells)
        keep = lambda t, s: self.deref_but(t, s, older)
        full = lambda t, s: self.deref(t, s)

        def carried(D):
            """(placeholder, initial value, next value, value when the loop is left, location) of what the loop changes"""
            items = []
            for k, p in ph_env.items():
                u, vb = final_val(lambda s: D(s.env.get(k, UNDEF), s), p)
                items.append((p, D(st.env.get(k, UNDEF), st), u, vb, ("env", k)))
            for k in sorted(names):
                if k not in ph_env:
                    u, vb = final_val(lambda s: D(s.env.get(k, UNDEF), s), T("ph", "n", 0))
                    items.append((None, UNDEF, u, vb, ("env", k)))
            if target is not None:
                for x in ast.walk(target):
                    if isinstance(x, ast.Name):
                        u, vb = final_val(lambda s: D(s.env.get(x.id, UNDEF), s), UNDEF)
                        items.append((None, UNDEF, u, vb, ("env", x.id)))
            for k, p in ph_heap.items():
                u, vb = final_val(lambda s: D(s.heap.get(k, k), s), p)
                items.append((p, D(st.heap.get(k, k), st), u, vb, ("heap", k)))
            for k, p in ph_ver.items():
                u, vb = final_val(lambda s: D(s.ver.get(k, k), s), p)
                items.append((p, D(st.ver.get(k, k), st), u, vb, ("ver", k)))
            for k, p in ph_cells.items():
                u, vb = final_val(lambda s: D(s.cells.get(k), s), p)
                items.append((p, D(st.cells[k], st), u, vb, ("cells", k)))
            return items

        items = carried(full)
        ph0 = T("ph0")
        blank = {p: T("ph0", init) for p, init, *_ in items if p is not None}
        names_of = {}
        for p, init, u, vb, where in items:
            if p is not None:
                mine = dict(blank)
                mine[p] = ph0
                names_of[p] = self._counter(p, init, u, gens, pre, where) or remake("lc", (init, subst(u, mine), subst(vb, mine) if vb is not None else NONE))
        fgens = tuple(subst(self.deref(g, start), names_of) for g in g2)
        stop_n = subst(stop, names_of)
        ugens = fgens if stop is FALSE else tuple(fgens[:-1]) + (T("until", fgens[-1], stop_n),)
        brk_n = subst(brk, names_of)
        lcs = {x for x in names_of.values() if x.op == "lc"}
        depth = {b: self.el_depth.get(b, 0) for g in g2 for b in (g.args[0] if g.op == "zip" else (g,))}
        depth.update({b: self.el_depth.get(a, 0) for a0, b0 in zip(g2, fgens) for a, b in zip(a0.args[0] if a0.op == "zip" else (a0,), b0.args[0] if b0.op == "zip" else (b0,))})
        endless = test is not None and isinstance(test, ast.Constant) and bool(test.value)
        hit = TRUE if endless else any_(stop_n, fgens)

        def first(t):
            return t if is_const(t) else first_(t, stop_n, fgens, depth, lcs)

        def at_exit(g):
            """Condition under which the loop is left in an iteration where g holds."""
            return hit if g is stop_n else and_(hit, first(rel(g, stop_n)))

        for p, init, u, vb, (kind, k) in carried(keep):
            if kind == "env" and p is None:
                val = T("last", subst(u, names_of), ugens) if vb is None else T("recb", subst(u, names_of), subst(vb, names_of), brk_n, fgens)
                if vb is not None:
                    val = first(subst(vb, names_of))
                out.env[k] = val
                continue
            val = self.fold(p, init, u, vb, names_of, ugens, fgens, brk_n, first, hit)
            if kind == "env":
                if k in st.env and st.env[k].op == "ref" and u is p and (vb is None or vb is p):
                    continue
                out.env[k] = val
            elif kind == "heap":
                out.heap[k] = val
            elif kind == "ver":
                out.ver[k] = val
            else:
                out.cells[k] = val
        for s in [end] + lp.breaks:
            for k, v in s.occ.items():
                out.occ[k] = max(v, out.occ.get(k, 0))
        # cells allocated in the body
        for s in [end] + lp.breaks:
            for k, v in s.cells.items():
                if k not in out.cells:
                    out.cells[k] = subst(v, names_of)
        # rewrite events
        for e in self.events[mark:]:
            e.term = subst(e.term, names_of)
            if e.raw is not None:
                e.raw = subst(e.raw, names_of)
            g = subst(e.guard, names_of)
            e.held = tuple(subst(g, names_of) for g in e.held)
            ls = tuple(subst(g, names_of) for g in e.loops[len(outer_loops):])
            if stop_n is not FALSE and len(ls) >= len(fgens):
                if g is stop_n or implies(g, stop_n) is True:
                    e.term = first(e.term)
                    e.raw = None
                    e.held = tuple(first(x) for x in e.held)
                    g = at_exit(g)
                    ls = tuple(first(x) for x in ls[len(fgens):])
                else:
                    ls = ugens + ls[len(fgens):]
            e.guard = and_(outer_guard, g)
            e.loops = tuple(outer_loops) + ls
        # early returns / raises inside the loop
        retg = FALSE
        rets = [(subst(g, names_of), subst(self.deref(v, s), names_of), s) for g, v, s in lp.rets]
        if len(rets) > 1:
            g = or_(*[r[0] for r in rets])
            v = None
            fin = None
            for gi, vi, si in reversed(rets):
                v = vi if v is None else ite(gi, vi, v)
                fin = si if fin is None else merge(gi, si, fin)
            fin = fin.copy()
            rets = [(g, ite(g, v, T("dc")), fin)]
        for g, v, s in rets:
            left = at_exit(g)
            anyg = and_(outer_guard, left)
            v = first(v)
            s3 = out.copy()
            s3.guard = anyg
            if len(fr.loopstack):
                fr.loopstack[-1].rets.append((anyg, v, s3))
            else:
                fr.rets.append((anyg, v, s3))
            retg = left
        if lp.raises:
            g = subst(or_(*lp.raises), names_of)
            left = at_exit(g)
            if self.lpstack and self.lpstack[-1] is not None:
                self.lpstack[-1].raises.append(and_(outer_guard, left))
            retg = or_(retg, left)
        out.guard = and_(outer_guard, not_(retg))
        if test is not None and isinstance(test, ast.Constant) and test.value and not lp.breaks:
            out.dead = True
        if orelse:
            if lp.breaks:
                return self.branch(hit, lambda s: s, lambda s: self.block(orelse, s, fr), out)
            return self.block(orelse, out, fr)
        return out

    def _counter(self, p, init, u, gens, pre, where):
        """The value, in an iteration, of a number that goes up by the same amount in each."""
        if where[0] != "env" or not is_num(init) or gens is None or len(gens) != 1 or pre is not TRUE or gens[0].op == "zip":
            return None
        d = self._delta(u, p)
        if d is None or not is_num(d):
            return None
        g = gens[0]
        i = T("el" if _is_range(g) else "idx", g, self.el_depth.get(g, 0))
        return padd(init, pmul(d, i))

    def _varies(self, v, gens):
        for x in subterms(v):
            if x.op in ("el", "idx", "lc", "ph"):
                return True
        return False

    def fold(self, p, init, u, vb, names_of, gens, fgens, brk, first, hit):
        S = lambda t: subst(t, names_of)
        if vb is not None:
            if u is p and vb is p:
                return init
            if u is p and not contains(vb, p):
                return ite(hit, first(S(vb)), init)
            if vb is not p:
                return T("rec", init, S(u), S(vb), fgens, brk)
            # value unchanged by the breaking iteration: plain fold over the prefix
        if u is p:
            return init
        if not contains(u, p):
            v = S(u)
            if not self._varies(v, gens) and init is v:
                return v
            return T("last", v, gens, init)
        # conditional overwrite / flag
        if u.op == "ite" and not contains(u.args[0], p):
            c, a, b = u.args
            if b is p and is_const(a):
                return ite(any_(S(c), gens), a, init)
            if a is p and is_const(b):
                return ite(any_(S(not_(c)), gens), b, init)
        def flag(t):
            if t.op == "ite":
                return flag(t.args[1]) and flag(t.args[2])
            return t is p or is_bool(t)

        if is_const(init) and init.args[0] == "b" and flag(u):
            from .canon import assign
            hi = assign(truthy(u), p, True, {}, True)
            lo = assign(truthy(u), p, False, {}, True)
            if not contains(hi, p) and not contains(lo, p):
                if lo is FALSE:
                    return and_(init, not_(any_(S(not_(hi)), gens)))
                if hi is TRUE:
                    return or_(init, any_(S(lo), gens))
        d = self._delta(u, p)
        if d is not None:
            d = S(d)
            if d.op == "sumc":
                return padd(init, sumc(d.args[0], gens + d.args[1], d.args[2]))
            return padd(init, sumc(d, gens, TRUE))
        if self._prefix(u, p, "concat"):
            c = S(subst(u, {p: T("list", ())}))
            return concat(init, flat(c, gens, "list"))
        if self._prefix(u, p, "union"):
            c = S(subst(u, {p: T("set", ())}))
            return union(init, flat(c, gens, "set"))
        if self._prefix(u, p, "dcat"):
            c = S(subst(u, {p: T("dict", ())}))
            return dcat(init, flat(c, gens, "dict"))
        if u.op in ("max", "min") and p in u.args[0]:
            e = minmax(u.op, [x for x in u.args[0] if x is not p])
            if not contains(e, p):
                return minmax(u.op, [init, T("best", u.op, flat(T("list", (S(e),)), gens, "list"))])
        if u.op == "ite" and not contains(u.args[0], p) and p in u.args[1:]:
            c, m = (u.args[0], u.args[1]) if u.args[2] is p else (not_(u.args[0]), u.args[2])
            if m.op in ("max", "min") and p in m.args[0]:
                e = minmax(m.op, [x for x in m.args[0] if x is not p])
                if not contains(e, p):
                    return minmax(m.op, [init, T("best", m.op, flat(T("list", (S(e),)), gens, "list", S(c)))])
        return T("rec", init, S(subst(u, {p: T("ph0")})), NONE, gens, FALSE)

    def _delta(self, u, p):
        if u is p:
            return num(0)
        if u.op == "poly":
            c, terms = to_poly(u)
            if terms.get((p,)) == 1:
                r = dict(terms)
                del r[(p,)]
                t = mkpoly(c, r)
                return None if contains(t, p) else t
            return None
        if u.op == "ite":
            if contains(u.args[0], p):
                return None
            a, b = self._delta(u.args[1], p), self._delta(u.args[2], p)
            if a is None or b is None:
                return None
            return ite(u.args[0], a, b)
        return None

    def _prefix(self, u, p, op):
        if u is p:
            return True
        if u.op == op:
            if op == "union":
                return p in u.args[0] and not any(contains(x, p) for x in u.args[0] if x is not p)
            return self._prefix(u.args[0][0], p, op) and not any(contains(x, p) for x in u.args[0][1:])
        if u.op == "ite":
            return not contains(u.args[0], p) and self._prefix(u.args[1], p, op) and self._prefix(u.args[2], p, op)
        return False

    def _fresh(self):
        self._n += 1
        return self._n

    # ----------------------------------------------------------- functions
    def s_FunctionDef(self, n, st, fr):
        t = T("clo", self._fresh())
        fi = FuncInfo(n, fr.module, None, fr.fi.qual + ".<locals>." + n.name, outer=fr.fi)
        self.closures[t] = (fi, fr)
        for d in reversed(n.decorator_list):
            t = self.call_value(self.ev(d, st, fr), (t,), (), st, fr, n)
        st.env[n.name] = t
        return st

    def s_ClassDef(self, n, st, fr):
        bases = tuple(self.ev(x, st, fr) for x in n.bases)
        decs = tuple(self.ev(x, st, fr) for x in n.decorator_list)
        s = st.copy()
        doc = n.body[1:] if ast.get_docstring(n) is not None else n.body
        before = dict(s.env)
        s = self.block(doc, s, fr)
        own = sorted(k for k, v in s.env.items() if before.get(k) is not v or k in stored(doc))
        st.env[n.name] = T("localclass", bases, decs, tuple(T("kv", const(k), s.env[k]) for k in own))
        return st

    def s_Import(self, n, st, fr):
        for a in n.names:
            st.env[a.asname or a.name.split(".")[0]] = T("g", a.name if a.asname else a.name.split(".")[0])
        return st

    def s_ImportFrom(self, n, st, fr):
        m = fr.module._abs(n)
        for a in n.names:
            st.env[a.asname or a.name] = T("g", self.prog.canonical(m + "." + a.name))
        return st

    # ---------------------------------------------------------- expressions
    def ev(self, n, st, fr):
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            return T("opaque", type(n).__name__, ast.unparse(n))
        return m(n, st, fr)

    def cond(self, n, st, fr):
        v = self.ev(n, st, fr)
        return truthy(self.content(v, st))

    def e_Constant(self, n, st, fr):
        return const(n.value)

    def e_Name(self, n, st, fr):
        v = st.env.get(n.id)
        if v is not None:
            return v
        t = self.expand_glob(self.glob(n.id, fr), st, fr)
        fi = self.prog.func_by_qual(t.args[0]) if t.op == "g" else None
        if fi is not None and fi.cls is None and fi.qual not in self.vocab and fi not in self.stack:
            return self.as_lambda(fi, ast.Name(id=n.id, ctx=ast.Load()), 0, st, fr)
        return t

    def as_lambda(self, fi, callee, skip, st, fr):
        """A freshly introduced function used as a value."""
        a = fi.node.args
        ps = (a.posonlyargs + a.args)[skip:]
        if a.vararg or a.kwarg or a.kwonlyargs or fi.node.decorator_list or any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(fi.node)):
            return T("g", fi.qual)
        call = ast.Call(func=callee, args=[ast.Name(id=p.arg, ctx=ast.Load()) for p in ps], keywords=[])
        lam = ast.Lambda(args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=p.arg) for p in ps], kwonlyargs=[], kw_defaults=[], defaults=list(a.defaults)), body=call)
        ast.copy_location(lam, fi.node)
        ast.fix_missing_locations(lam)
        return self.e_Lambda(lam, st, fr)

    def expand_glob(self, t, st, fr):
        """Value of a freshly introduced module-level constant; operator functions as lambdas."""
        if t.op != "g":
            return t
        d = t.args[0]
        if d.startswith("operator."):
            src = OPERATORS.get(d[9:])
            return self.e_Lambda(ast.parse(src, mode="eval").body, st, fr) if src else t
        mod, _, nm = d.rpartition(".")
        m = self.prog.modules.get(mod)
        if m is not None and nm not in m.assigns and d in self.spec_data and d not in self.expanding:
            v = self.spec_data[d]
        elif m is None or nm not in m.assigns or d in self.vocab or d in self.expanding:
            return t
        else:
            v = m.assigns[nm]
        if not isinstance(v, (ast.Dict, ast.List, ast.Tuple, ast.Set, ast.Lambda, ast.Constant, ast.Attribute, ast.Name, ast.BinOp, ast.JoinedStr, ast.Call, ast.UnaryOp)):
            return t
        self.expanding.add(d)
        fr2 = Frame(FuncInfo(_NOFUNC, m, None, mod + ".<module>"), None, None, fr.depth + 1)
        env, st.env = st.env, {}
        keep = len(self.events)
        try:
            return self.ev(v, st, fr2)
        finally:
            del self.events[keep:]
            st.env = env
            self.expanding.discard(d)

    def glob(self, name, fr, ):
        d = fr.module.resolve(name)
        if d is None and fr.module.name + "." + name in self.spec_data:
            d = fr.module.name + "." + name
        if d is None and self.spec_module is not None:
            d = self.spec_module.get(name)
        if d is None:
            return T("g", name)
        c = self.const_of(d)
        return c if c is not None else T("g", d)

    def const_of(self, dotted):
        if dotted in self.spec_data:
            return literal(self.spec_data[dotted])
        mod, _, nm = dotted.rpartition(".")
        m = self.prog.modules.get(mod)
        if m and nm in m.assigns:
            v = m.assigns[nm]
            t = literal(v)
            if t is not None:
                return t
        return None

    def e_Attribute(self, n, st, fr):
        t = self._attribute(n, st, fr)
        return self.expand_glob(t, st, fr) if t.op == "g" else t

    def _attribute(self, n, st, fr):
        if isinstance(n.value, ast.Name) and n.value.id not in st.env or isinstance(n.value, ast.Attribute):
            root = n.value
            while isinstance(root, ast.Attribute):
                root = root.value
            if isinstance(root, ast.Name) and root.id not in st.env:
                d = fr.module.dotted(n)
                if d is None and self.spec_module is not None and root.id in self.spec_module:
                    d = self.prog.canonical(self.spec_module[root.id] + ast.unparse(n)[len(root.id):])
                if d is not None:
                    c = self.const_of(d)
                    if c is not None:
                        return c
                    b, _, a = d.rpartition(".")
                    k = self.prog.classes.get(b)
                    if k is not None:
                        if a in k.methods:
                            return T("g", d)
                        return T("a", T("g", b), a)
                    if self._is_table(b):
                        return T("a", T("g", b), a)
                    return T("g", d)
        b = self.ev(n.value, st, fr)
        return self.attr(b, n.attr, st, fr)

    def attr(self, b, attr, st, fr):
        loc = T("a", b, attr)
        if loc in st.heap:
            return st.heap[loc]
        if b.op == "self" and fr.cls is not None:
            fi = self.prog.lookup(fr.cls, attr)
            if fi is not None and fi.kind() == "property" and self.should_inline(fi):
                return self.inline(fi, fr.cls, b, (), (), st, fr, fi.node)
            if fi is not None and fi.kind() == "method" and fi.qual not in self.vocab and fi not in self.stack and not fi.node.decorator_list:
                s2 = st.copy()
                s2.env["$self"] = b
                return self.as_lambda(fi, ast.Attribute(value=ast.Name(id="$self", ctx=ast.Load()), attr=attr, ctx=ast.Load()), 1, s2, fr)
            if fi is None:
                of = self._length_of(fr.cls, attr)
                if of is not None:
                    return self.builtin("len", T("g", "len"), (self.attr(b, of, st, fr),), (), st, fr, fr.fi.node)
                ca = self.prog.lookup_attr(fr.cls, attr)
                if ca is not None and ca[1] is not None:
                    t = literal(ca[1])
                    if t is not None and (ca[0].qual + "." + attr) not in self.vocab and not self._attr_assigned(fr.cls, attr):
                        return t
        if b.op == "g":
            k = self.prog.classes.get(b.args[0])
            if k is not None:
                ca = self.prog.lookup_attr(k, attr)
                if ca is not None and ca[1] is not None and (ca[0].qual + "." + attr) not in self.vocab:
                    t = literal(ca[1])
                    if t is not None:
                        return t
        if b.op == "ite":
            ha, hb = T("a", b.args[1], attr) in st.heap, T("a", b.args[2], attr) in st.heap
            if ha or hb:
                return ite(b.args[0], self.attr(b.args[1], attr, st, fr), self.attr(b.args[2], attr, st, fr))
        if attr == "__getitem__" and b.op != "self":
            # used as a function: the same as  lambda k: b[k]
            s2 = st.copy()
            s2.env["$b"] = b
            return self.e_Lambda(_GETITEM, s2, fr)
        if b.op == "call" and b.args[0].op == "g" and all(k == "#" for k, _ in b.args[2]):
            fields = self.record_fields(b.args[0].args[0])
            if attr in fields and fields.index(attr) < len(b.args[1]):
                return b.args[1][fields.index(attr)]
        return loc

    def record_fields(self, name):
        """What a data class made from its arguments holds, in order."""
        k = self.prog.classes.get(name)
        if k is None or not any("dataclass" in ast.unparse(d) for d in k.node.decorator_list) \
                or self.prog.lookup(k, "__init__") is not None:
            return ()
        rewritten = set()
        post = self.prog.lookup(k, "__post_init__")
        if post is not None:
            # it may fill some of them in, but must hand itself to nobody
            me = post.node.args.args[0].arg
            held = set()
            for x in ast.walk(post.node):
                if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == me:
                    held.add(x.value)
                    if not isinstance(x.ctx, ast.Load):
                        rewritten.add(x.attr)
            if any(isinstance(x, ast.Name) and x.id == me and x not in held for x in ast.walk(post.node)):
                return ()
        fields, defaults = [], set()
        for c in reversed(self.prog.mro(k)):
            for x in c.node.body:
                if isinstance(x, ast.AnnAssign) and isinstance(x.target, ast.Name):
                    if x.target.id not in fields:
                        fields.append(x.target.id)
                    if x.value is not None:
                        defaults.add(x.target.id)
        order = [f for f in fields if f not in defaults] + [f for f in fields if f in defaults]
        return [None if f in rewritten else f for f in order]

    def _length_of(self, cls, attr):
        """The attribute whose length this one is from the constructor on, both never changed again."""
        memo = self.prog.__dict__.setdefault("_lengths", {})
        k = (cls.qual, attr)
        if k not in memo:
            memo[k] = self._find_length(cls, attr)
        return memo[k]

    def _find_length(self, cls, attr):
        of, stores = None, []
        for k in self.prog.mro(cls):
            for m in k.methods.values():
                for x in ast.walk(m.node):
                    if isinstance(x, ast.Attribute) and not isinstance(x.ctx, ast.Load) and x.attr == attr:
                        stores.append((m, x))
        if len(stores) != 1 or stores[0][0].node.name != "__init__":
            return None
        init = stores[0][0]
        for x in init.node.body:
            if isinstance(x, ast.Assign) and len(x.targets) == 1 and x.targets[0] is stores[0][1] and isinstance(x.value, ast.Call) \
                    and ast.unparse(x.value.func) == "len" and len(x.value.args) == 1 and ast.unparse(x.targets[0]) == "self." + attr:
                y = x.value.args[0]
                if isinstance(y, ast.Attribute) and isinstance(y.value, ast.Name) and y.value.id == "self":
                    of = y.attr
        if of is None:
            return None
        for k in self.prog.mro(cls):
            for m in k.methods.values():
                for x in ast.walk(m.node):
                    if isinstance(x, ast.Attribute) and not isinstance(x.ctx, ast.Load) and x.attr == of and m is not init:
                        return None
                    if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in MUTATORS \
                            and isinstance(x.func.value, ast.Attribute) and x.func.value.attr == of:
                        return None
        return of

    def _attr_assigned(self, cls, attr):
        for k in self.prog.mro(cls):
            for m in k.methods.values():
                for x in ast.walk(m.node):
                    if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and x.attr == attr:
                        return True
        return False

    def e_Subscript(self, n, st, fr):
        b = self.ev(n.value, st, fr)
        k = self.ev(n.slice, st, fr)
        if self.trace_loads and b.op in ("a", "i"):
            self.emit(T("load", b, k), st, fr, n)
        return self.subscript(b, k, st)

    def subscript(self, b, k, st):
        if b.op == "ref":
            c = st.cells[b]
            kk = self.deref(k, st)
            r = dict_lookup(c, kk)
            if r is not None:
                return r
            return T("i", b, kk)
        loc = T("i", b, k)
        if loc in st.heap:
            return st.heap[loc]
        v = st.ver.get(b)
        if v is not None and v.op != "upd":
            return index(v, k)
        return index(b, k)

    def e_Slice(self, n, st, fr):
        f = lambda x: as_number(self.ev(x, st, fr)) if x is not None else NONE
        lo = f(n.lower)
        if is_num(lo) and lo.args[1] == 0:
            lo = NONE
        return T("slice", lo, f(n.upper), f(n.step))

    def e_Index(self, n, st, fr):
        return self.ev(n.value, st, fr)

    def e_Tuple(self, n, st, fr):
        return T("tuple", tuple(self.ev(x, st, fr) for x in n.elts))

    def alloc(self, content, st):
        r = T("ref", self._fresh())
        st.cells[r] = content
        if content.op in ("set", "union") or (content.op == "comp" and content.args[0] == "set") or \
                (content.op == "call" and content.args[0].op == "g" and content.args[0].args[0] == "set"):
            self.sets.add(r)
        return r

    def e_List(self, n, st, fr):
        parts = []
        for x in n.elts:
            if isinstance(x, ast.Starred):
                parts.append(self.ev(x.value, st, fr))
            else:
                parts.append(T("list", (self.ev(x, st, fr),)))
        return self.alloc(concat(*parts) if parts else T("list", ()), st)

    def e_Set(self, n, st, fr):
        return self.alloc(union(*[T("set", (self.ev(x, st, fr),)) for x in n.elts]), st)

    def e_Dict(self, n, st, fr):
        c = T("dict", ())
        for k, v in zip(n.keys, n.values):
            if k is None:
                c = dcat(c, self.content(self.ev(v, st, fr), st))
            else:
                c = dict_set(c, self.deref(self.ev(k, st, fr), st), self.ev(v, st, fr))
        return self.alloc(c, st)

    def e_Starred(self, n, st, fr):
        return T("star", self.ev(n.value, st, fr))

    def e_JoinedStr(self, n, st, fr):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(const(v.value))
            else:
                how = [] if v.conversion in (-1, 115) else [const(chr(v.conversion))]
                if v.format_spec is not None:
                    how.append(self.ev(v.format_spec, st, fr))
                parts.append(T("fmt", self.deref(self.ev(v.value, st, fr), st), *how))
        return fstr(parts)

    def e_UnaryOp(self, n, st, fr):
        v = self.ev(n.operand, st, fr)
        o = type(n.op).__name__
        if o == "Not":
            return not_(truthy(self.content(v, st)))
        if o == "USub":
            return pneg(v)
        if o == "UAdd":
            return v
        return T("un", o, v)

    def e_BinOp(self, n, st, fr):
        a = self.ev(n.left, st, fr)
        b = self.ev(n.right, st, fr)
        return self.binop(type(n.op).__name__, a, b, st)

    def binop(self, o, a, b, st):
        ra, rb = a, b
        if a.op == "ref" or b.op == "ref":
            a, b = self.content(a, st), self.content(b, st)
        if o in ("Add", "Sub", "Mult"):
            a, b = as_number(a), as_number(b)
        if o == "Add":
            if is_seq(a) or is_seq(b):
                return self.alloc(concat(self.deref(a, st), self.deref(b, st)), st) if not (is_str(a) or is_str(b) or a.op == "fstr" or a.op == "tuple") else concat(a, b)
            return padd(a, b)
        if o == "Sub":
            return psub(a, b)
        if o == "Mult":
            for x, y in ((a, b), (b, a)):
                if x.op in ("list", "tuple") and is_num(y) and y.args[1].denominator == 1 and 0 <= y.args[1] * len(x.args[0]) <= 8:
                    t = T(x.op, x.args[0] * int(y.args[1]))
                    return self.alloc(t, st) if x.op == "list" else t
                if x.op == "list" and len(x.args[0]) == 1 and is_const(x.args[0][0]) and not is_seq(y) and y.op != "tuple":
                    gen, _ = self.iter_of(T("call", T("g", "range"), (self.deref(y, st),), ()), st)
                    return self.alloc(T("comp", "list", x.args[0][0], (gen,), TRUE), st)
            return pmul(a, b)
        if o == "Div":
            return pdiv(a, b)
        if o in ("BitAnd", "BitOr", "BitXor"):
            if o == "BitOr" and is_bool(a) and is_bool(b):
                return or_(a, b)
            if o == "BitAnd" and is_bool(a) and is_bool(b):
                return and_(a, b)
            if a.key > b.key:
                a, b = b, a
        if is_num(a) and is_num(b):
            try:
                x, y = a.args[1], b.args[1]
                if o == "Pow" and y.denominator == 1 and abs(y) < 64:
                    return num(x ** int(y))
                if o == "FloorDiv" and y:
                    return num(x // y)
                if o == "Mod" and y:
                    return num(x % y)
            except Exception:
                pass
        return T("bin", o, a, b)

    def e_BoolOp(self, n, st, fr):
        vals = []
        s = st
        g0 = st.guard
        forks = []
        isand = isinstance(n.op, ast.And)
        res = []
        for x in n.values:
            v = self.content(self.ev(x, s, fr), s)
            res.append(v)
            c = truthy(v) if isand else not_(truthy(v))
            if x is not n.values[-1] and any(isinstance(y, (ast.Call, ast.NamedExpr, ast.Yield, ast.Await)) for z in n.values[len(res):] for y in ast.walk(z)):
                # what follows happens only when c holds
                forks.append((c, s))
                s = s.copy()
            s.guard = and_(s.guard, c)
        s.guard = g0
        while forks:
            c, t = forks.pop()
            if t.guard is FALSE or c is FALSE:
                s = t
            elif c is not TRUE:
                s.guard, t.guard = and_(t.guard, c), and_(t.guard, not_(c))
                s = merge(c, s, t)
        if s is not st:
            for a in State.__slots__:
                setattr(st, a, getattr(s, a))
        st.guard = g0
        r = res[-1]
        for v in reversed(res[:-1]):
            if is_bool(v) and is_bool(r):
                r = and_(v, r) if isand else or_(v, r)
            else:
                r = ite(truthy(v), r, v) if isand else ite(truthy(v), v, r)
        return r

    def e_Compare(self, n, st, fr):
        left = self.ev(n.left, st, fr)
        out = []
        for op, c in zip(n.ops, n.comparators):
            right = self.ev(c, st, fr)
            o = {"Lt": "<", "LtE": "<=", "Gt": ">", "GtE": ">=", "Eq": "==", "NotEq": "!=", "Is": "is", "IsNot": "is not",
                 "In": "in", "NotIn": "not in"}[type(op).__name__]
            if o in ("is", "is not"):
                a, b = left, right
            else:
                a, b = self.deref(self.content(left, st), st), self.deref(self.content(right, st), st)
            if o in ("==", "!=", "is", "is not"):
                # bool(x) == True
                for x, y, m in ((a, b, n.left), (b, a, c)):
                    if y in (TRUE, FALSE) and isinstance(m, ast.Call) and isinstance(m.func, ast.Name) and m.func.id == "bool" and len(n.ops) == 1:
                        return truthy(x) if (y is TRUE) == (o in ("==", "is")) else not_(truthy(x))
            out.append(cmp_(o, a, b))
            left = right
        return and_(*out) if len(out) > 1 else out[0]

    def e_IfExp(self, n, st, fr):
        c = self.cond(n.test, st, fr)
        if c is TRUE:
            return self.ev(n.body, st, fr)
        if c is FALSE:
            return self.ev(n.orelse, st, fr)
        g = st.guard
        a, b = st.copy(), st.copy()
        a.guard, b.guard = and_(g, c), and_(g, not_(c))
        x = self.ev(n.body, a, fr)
        y = self.ev(n.orelse, b, fr)
        r = merge(c, a, b)
        for k in State.__slots__:
            setattr(st, k, getattr(r, k))
        st.guard = g
        return ite(c, x, y)

    def e_NamedExpr(self, n, st, fr):
        v = self.ev(n.value, st, fr)
        st.env[n.target.id] = v
        return v

    def e_Lambda(self, n, st, fr):
        t = T("clo", self._fresh())
        node = ast.FunctionDef(name="<lambda>", args=n.args, body=[ast.Return(value=n.body, lineno=n.lineno, col_offset=0)],
                               decorator_list=[], lineno=n.lineno, col_offset=0)
        fi = FuncInfo(node, fr.module, None, fr.fi.qual + ".<lambda>", outer=fr.fi)
        self.closures[t] = (fi, fr, st.copy())
        return t

    def e_Yield(self, n, st, fr):
        v = self.ev(n.value, st, fr) if n.value else NONE
        self.emit(T("yield", v), st, fr, n)
        return T("sent")

    # comprehensions
    def e_ListComp(self, n, st, fr):
        return self.alloc(self._comp("list", n, st, fr), st)

    def e_SetComp(self, n, st, fr):
        return self.alloc(self._comp("set", n, st, fr), st)

    def e_GeneratorExp(self, n, st, fr):
        return self._comp("list", n, st, fr)

    def e_DictComp(self, n, st, fr):
        return self.alloc(self._comp("dict", n, st, fr), st)

    _in_split = False

    def _comp(self, kind, n, st, fr):
        self.lpstack.append(None)
        try:
            return self._comp2(kind, n, st, fr)
        finally:
            self.lpstack.pop()

    def _comp2(self, kind, n, st, fr):
        g0 = n.generators[0]
        it = self.content(self.ev(g0.iter, st, fr), st)
        k = "$ci%d" % len(self.stack)
        mk = lambda gens, **kw: ast.copy_location(type(n)(generators=gens, **kw), n)
        body = {"key": n.key, "value": n.value} if kind == "dict" else {"elt": n.elt}
        if it.op == "ite":
            g = ast.comprehension(target=g0.target, iter=ast.Name(id=k, ctx=ast.Load(), lineno=n.lineno), ifs=g0.ifs, is_async=0)
            x = mk([g] + n.generators[1:], **body)
            out = []
            old = st.env.get(k)
            gd = st.guard
            ss = []
            for c, v in ((it.args[0], it.args[1]), (not_(it.args[0]), it.args[2])):
                s = st.copy()
                s.env[k] = v
                s.guard = and_(gd, c)
                out.append(self._comp(kind, x, s, fr))
                ss.append(s)
            s = merge(it.args[0], *ss)
            for a in State.__slots__:
                setattr(st, a, getattr(s, a))
            st.guard = gd
            if old is None:
                st.env.pop(k, None)
            else:
                st.env[k] = old
            return ite(it.args[0], out[0], out[1])
        if it.op in ("list", "tuple") and 0 < len(it.args[0]) <= 8 and all(x.op != "star" for x in it.args[0]) and len(n.generators) == 1:
            s = st.copy()
            parts = []
            for v in it.args[0]:
                self.assign(g0.target, v, s, fr, n)
                c = TRUE
                for i in g0.ifs:
                    s.guard = and_(st.guard, c)
                    c = and_(c, self.cond(i, s, fr))
                s.guard = and_(st.guard, c)
                if kind == "dict":
                    parts.append((self.deref(c, s), self.deref(self.ev(n.key, s, fr), s), self.deref(self.ev(n.value, s, fr), s)))
                else:
                    parts.append((self.deref(c, s), self.deref(self.ev(n.elt, s, fr), s)))
                s.guard = st.guard
            for q, v in s.cells.items():
                if q not in st.cells:
                    st.cells[q] = v
            st.occ = dict(s.occ)
            if kind == "list":
                return concat(*[T("list", (e,)) if c is TRUE else ite(c, T("list", (e,)), T("list", ())) for c, e in parts])
            if kind == "set" and all(c is TRUE for c, e in parts):
                return union(*[T("set", (e,)) for c, e in parts])
            if kind == "dict" and all(c is TRUE for c, _, _ in parts):
                d = T("dict", ())
                for c, key, v in parts:
                    d = dict_set(d, key, v)
                return d
        s = st.copy()
        gens = []
        pushed = []
        c = TRUE
        outer_loops = self.loops
        mark = len(self.events)
        for g in n.generators:
            it = self.ev(g.iter, s, fr)
            gen, elt = self.iter_of(self.deref_shallow(it, s), s)
            if gen.op == "fuse":
                gs = gen.args[0].args[2]
                c = and_(c, gen.args[0].args[3])
            else:
                gs = (gen,)
            for x in gs:
                self.push_gen(x)
                pushed.append(x)
                gens.append(x)
            self.loops = outer_loops + tuple(gens)
            self.assign(g.target, elt, s, fr, n)
            for i in g.ifs:
                s.guard = and_(st.guard, c)
                c = and_(c, self.cond(i, s, fr))
        s.guard = and_(st.guard, c)
        if kind == "dict":
            e = T("kv", self.deref(self.ev(n.key, s, fr), s), self.deref(self.ev(n.value, s, fr), s))
        else:
            e = self.deref(self.ev(n.elt, s, fr), s)
        for x in pushed:
            self.pop_gen(x)
        self.loops = outer_loops
        st.occ = dict(s.occ)
        for k, v in s.cells.items():
            if k not in st.cells:
                st.cells[k] = v
        c = self.deref(c, s)
        gens = tuple(self.deref(g, s) for g in gens)
        content = T("list", (e,)) if kind == "list" else T("set", (e,)) if kind == "set" else T("dict", (e,))
        return flat(content, gens, kind, c)

    # ---------------------------------------------------------------- calls
    def e_Call(self, n, st, fr):
        f = n.func
        # super()
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == "super":
            args, kw = self.args(n, st, fr)
            fi = self.prog.lookup(fr.cls, f.attr, after=fr.defcls) if fr.cls is not None and fr.defcls is not None else None
            if fi is not None and self.should_inline(fi) and fr.depth < self.max_depth and fi not in self.stack:
                return self.inline(fi, fr.cls, T("self"), args, kw, st, fr, n)
            if fi is not None:
                args, kw = bind_args(fi, args, kw, skip_self=True, lit=self)
            t = T("call", T("super", f.attr), self._dargs(args, st), self._dkw(kw, st))
            self.emit(t, st, fr, n)
            return t
        if isinstance(f, ast.Attribute):
            # module/class qualified?
            root = f.value
            while isinstance(root, ast.Attribute):
                root = root.value
            if isinstance(root, ast.Name) and root.id not in st.env:
                ft = self.e_Attribute(f, st, fr)
                if ft.op == "g" or (ft.op == "a" and ft.args[0].op == "g"):
                    args, kw = self.args(n, st, fr)
                    if f.attr in ("get", "format", "items", "keys", "values", "copy") and self.prog.func_by_qual(ft.args[0] if ft.op == "g" else "") is None:
                        base = self.ev(f.value, st, fr)
                        if base.op == "g" and self._is_table(base.args[0]):
                            return self.call_method(base, f.attr, args, kw, st, fr, n)
                    return self.call_global(ft, args, kw, st, fr, n)
            recv = self.ev(f.value, st, fr)
            args, kw = self.args(n, st, fr)
            return self.call_method(recv, f.attr, args, kw, st, fr, n)
        if isinstance(f, ast.Name):
            v = st.env.get(f.id)
            args, kw = self.args(n, st, fr)
            if v is None:
                g = self.expand_glob(self.glob(f.id, fr), st, fr)
                if g.op != "g":
                    return self.call_value(g, args, kw, st, fr, n)
                return self.call_global(g, args, kw, st, fr, n)
            return self.call_value(v, args, kw, st, fr, n)
        v = self.ev(f, st, fr)
        args, kw = self.args(n, st, fr)
        return self.call_value(v, args, kw, st, fr, n)

    def args(self, n, st, fr):
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.content(self.ev(a.value, st, fr), st)
                if v.op in ("tuple", "list"):
                    args.extend(v.args[0])
                else:
                    args.append(T("star", v))
            else:
                args.append(self.ev(a, st, fr))
        kw = []
        for k in n.keywords:
            v = self.ev(k.value, st, fr)
            if k.arg is None:
                v = self.content(v, st)
                if v.op == "dict" and all(e.op == "kv" and is_str(e.args[0]) for e in v.args[0]):
                    kw.extend((e.args[0].args[1], e.args[1]) for e in v.args[0])
                    continue
            kw.append((k.arg or "**", v))
        return tuple(args), tuple(kw)

    def _dargs(self, args, st):
        return tuple(self.deref(a, st) for a in args)

    def _dkw(self, kw, st):
        return tuple(sorted(((k, self.deref(v, st)) for k, v in kw), key=lambda x: x[0]))

    def should_inline(self, fi):
        return fi.qual not in self.vocab or self.inline_extra(fi)

    def opaque_call(self, ft, args, kw, st, fr, n, record=True):
        t = self.nth(T("call", self.deref(ft, st), self._dargs(args, st), self._dkw(kw, st)), st)
        if record:
            e = self.emit(t, st, fr, n)
            if ft.op == "a" and ft.args[0].op == "self":
                e.sees = self_reads(self.prog, ft.args[1]) or ()
                for x in self_writes(self.prog, ft.args[1]):
                    loc = T("a", ft.args[0], x)
                    st.heap[loc] = T("post", x, t)
                    st.ver.pop(loc, None)
            if self.returns_nothing(ft):
                return NONE
        return t

    def nth(self, t, st):
        """Two draws are two values: tell them apart by their rank and by the number of loops they are in."""
        nm = callee_name(t)
        if nm is None or not drawing(nm):
            return t
        k = (t, len(self.loops))
        i = st.occ.get(k, 0)
        st.occ[k] = i + 1
        if not i and not self.loops:
            return t
        return T("call", t.args[0], t.args[1], t.args[2] + (("#", T("tuple", (num(len(self.loops)), num(i)))),))

    def returns_nothing(self, ft):
        """Every definition the call can reach is declared `-> None` and returns no value."""
        if ft.op == "a":
            cands = self.prog.method_index.get(ft.args[1]) or ()
        else:
            fi = self.prog.func_by_qual(ft.args[0]) if ft.op == "g" else None
            cands = (fi,) if fi is not None else ()
        return bool(cands) and all(_procedure(c.node) for c in cands)

    def call_value(self, v, args, kw, st, fr, n):
        if v.op == "clo":
            return self.inline_closure(v, args, kw, st, fr, n)
        if v.op == "g":
            return self.call_global(v, args, kw, st, fr, n)
        if v.op == "a":
            return self.call_method(v.args[0], v.args[1], args, kw, st, fr, n)
        if v is NONE or v is UNDEF:
            return UNDEF
        if v.op == "ite" and _callables(v):
            g = st.guard
            st.guard = and_(g, v.args[0])
            a = self.call_value(v.args[1], args, kw, st, fr, n)
            st.guard = and_(g, not_(v.args[0]))
            b = self.call_value(v.args[2], args, kw, st, fr, n)
            st.guard = g
            return ite(v.args[0], a, b)
        return self.opaque_call(v, args, kw, st, fr, n)

    def call_global(self, ft, args, kw, st, fr, n):
        if (ft is T("g", "dict.fromkeys") or ft is T("a", T("g", "dict"), "fromkeys")) and len(args) in (1, 2) and not kw:
            gen, elt = self.iter_of(args[0], st)
            if gen.op != "fuse":
                v = args[1] if len(args) == 2 else NONE
                return self.alloc(flat(T("dict", (T("kv", self.deref(elt, st), self.deref(v, st)),)), (self.deref(gen, st),), "dict"), st)
        if ft.op == "a":  # Class.attr
            return self.opaque_call(ft, args, kw, st, fr, n)
        name = ft.args[0]
        if name == "next" and len(args) in (1, 2) and not kw:
            x = self.deref(self.content(args[0], st), st)
            if x.op == "call" and x.args[0] is T("g", "iter") and len(x.args[1]) == 1:
                x = x.args[1][0]
            if x.op == "comp" and x.args[0] == "list" and len(x.args[2]) == 1 and x.args[3] is not TRUE:
                v = first_of_comp(x)
                return v if len(args) == 1 else ite(truthy(x), v, args[1])
        if name in PURE_BUILTINS or name in ("print",):
            return self.builtin(name, ft, args, kw, st, fr, n)
        if name.rsplit(".", 1)[-1] in ("deepcopy", "copy") and name.startswith("copy."):
            return self.opaque_call(ft, args, kw, st, fr, n, record=False)
        if name == "functools.reduce" or name == "map":
            return self.opaque_call(ft, args, kw, st, fr, n, record=False)
        if name in FIRST_MUTATORS and args and not kw:
            return self.fork(args[0], st, lambda r, s: self.change_first(r, ft, args[1:], s, fr, n)) if fresh_gate(args[0]) else self.change_first(args[0], ft, args[1:], st, fr, n)
        fi = self.prog.func_by_qual(name)
        if fi is None and self.spec_funcs:
            sf = self.spec_funcs.get(tuple(name.rpartition("."))[::2])
            if sf is not None and sf not in self.stack and fr.depth < self.max_depth:
                return self.inline(sf, sf.cls, T("self"), args, kw, st, fr, n)
        if fi is not None:
            if self.should_inline(fi) and fr.depth < self.max_depth and fi not in self.stack:
                if fi.cls is not None and fi.kind() == "method":
                    if args:
                        return self.inline(fi, fi.cls if args[0].op != "self" else (fr.cls or fi.cls), args[0], args[1:], kw, st, fr, n)
                return self.inline(fi, fi.cls, T("self"), args, kw, st, fr, n)
            args, kw = bind_args(fi, args, kw, skip_self=False, lit=self)
            return self.opaque_call(ft, args, kw, st, fr, n)
        k = self.prog.classes.get(name)
        if k is not None:
            args, kw = self.bind_ctor(k, args, kw)
            return self.opaque_call(ft, args, kw, st, fr, n)
        args, kw = bind_stdlib(name, args, kw)
        if name == "collections.defaultdict":
            return self.opaque_call(ft, args, kw, st, fr, n, record=False)
        return self.opaque_call(ft, args, kw, st, fr, n)

    def bind_ctor(self, k, args, kw):
        fi = self.prog.lookup(k, "__init__")
        if fi is not None:
            return bind_args(fi, args, kw, skip_self=True, lit=self)
        fields = []
        defaults = {}
        for c in reversed(self.prog.mro(k)):
            for x in c.node.body:
                if isinstance(x, ast.AnnAssign) and isinstance(x.target, ast.Name):
                    if x.target.id not in fields:
                        fields.append(x.target.id)
                    if x.value is not None:
                        defaults[x.target.id] = x.value
        fields = [f for f in fields if f not in defaults] + [f for f in fields if f in defaults]
        if fields:
            return bind_fields(fields, defaults, args, kw)
        return args, kw

    def call_method(self, recv, name, args, kw, st, fr, n):
        if fresh_gate(recv) and name in MUTATORS:
            r = self.fork(recv, st, lambda x, s: self.call_method(x, name, args, kw, s, fr, n) or NONE)
            return r
        if recv.op == "self" and fr.cls is not None:
            h = st.heap.get(T("a", recv, name))
            if h is not None and h.op == "clo":
                return self.inline_closure(h, args, kw, st, fr, n)
            fi = self.prog.lookup(fr.cls, name)
            if fi is None and self.spec_funcs:
                for c in self.prog.mro(fr.cls):
                    sf = self.spec_funcs.get((c.qual, name))
                    if sf is not None and sf not in self.stack and fr.depth < self.max_depth:
                        return self.inline(sf, fr.cls, recv, args, kw, st, fr, n)
            if fi is not None:
                k = fi.kind()
                if self.should_inline(fi) and fr.depth < self.max_depth and fi not in self.stack:
                    return self.inline(fi, fr.cls, recv, args, kw, st, fr, n)
                args, kw = bind_args(fi, args, kw, skip_self=(k != "static"), lit=self)
                return self.opaque_call(T("a", recv, name), args, kw, st, fr, n)
        if recv.op == "g" and self.prog.classes.get(recv.args[0]) is not None:
            k = self.prog.classes[recv.args[0]]
            fi = self.prog.lookup(k, name)
            if fi is not None:
                return self.call_global(T("g", fi.qual), args, kw, st, fr, n)
        if name == "setdefault" and len(args) in (1, 2) and not kw and recv.op != "self":
            k = self.deref(args[0], st)

            def put(s):
                self.store_item(recv, k, args[1] if len(args) == 2 else NONE, s, fr, n)
                return s
            r = self.branch(cmp_("in", k, self.deref(self.content(recv, st), st)), lambda s: s, put, st)
            for a in State.__slots__:
                setattr(st, a, getattr(r, a))
            return self.subscript(recv, k, st)
        if recv.op in ("ref",):
            r = self.cell_method(recv, name, args, kw, st, fr, n)
            if r is not None:
                return r
        if name == "get" and len(args) in (1, 2) and not kw and recv.op != "self":
            b = self.content(recv, st)
            return lookup(self.deref(b, st), self.deref(args[0], st), args[1] if len(args) == 2 else NONE)
        if name == "format" and is_str(recv) and not kw:
            r = fmt_str(recv.args[1], args)
            if r is not None:
                return r
        if name == "__getitem__" and len(args) == 1 and not kw and recv.op != "self":
            return self.subscript(recv, args[0], st)
        if name == "copy" and not args and not kw and recv.op == "a" and recv.args[1] == "__dict__":
            k = self.el(recv)
            return self.alloc(T("comp", "dict", T("kv", k, T("i", recv, k)), (recv,), TRUE), st)
        if name in MUTATORS:
            return self.mutate(recv, name, args, kw, st, fr, n)
        # a freshly extracted method on a repo object: expand when the name is unique and new
        cands = self.prog.method_index.get(name)
        if cands:
            new = [c for c in cands if c.qual not in self.vocab]
            if len(cands) == 1 and new and fr.depth < self.max_depth and cands[0] not in self.stack:
                return self.inline(cands[0], cands[0].cls, recv, args, kw, st, fr, n)
            if len(cands) == 1 and self.inline_extra(cands[0]) and fr.depth < self.max_depth and cands[0] not in self.stack:
                return self.inline(cands[0], cands[0].cls, recv, args, kw, st, fr, n)
            args, kw = self.bind_common(cands, name, args, kw)
        return self.opaque_call(T("a", self.content_recv(recv, st, name), name), args, kw, st, fr, n,
                                record=name not in ("items", "keys", "values", "format") and not (name == "join" and args))

    def content_recv(self, recv, st, name):
        if recv.op == "ref":
            return self.deref(recv, st)
        if name in ("keys", "values", "items") and recv in st.ver:
            return self.deref(st.ver[recv], st)
        return recv

    def bind_common(self, cands, name, args, kw):
        if not kw and name in ("copy", "get", "items", "keys", "values", "sample"):
            return args, kw
        if any(a.op == "star" for a in args) or any(k == "**" for k, _ in kw):
            return args, kw
        sigs = {}
        for c in cands:
            ps = c.params()
            if c.kind() in ("method", "class"):
                ps = ps[1:]
            a = c.node.args
            d = [ast.unparse(x) for x in a.defaults]
            sigs[(tuple(ps), tuple(d))] = c
        if len(sigs) == 1:
            c = list(sigs.values())[0]
            return bind_args(c, args, kw, skip_self=c.kind() != "static", lit=self)
        if kw:
            # positions agreed on by every definition that has the parameter names
            poss = [s[0] for s in sigs]
            args = list(args)
            rest = dict(kw)
            while rest:
                nxt = {p[len(args)] for p in poss if len(p) > len(args)}
                if len(nxt) == 1 and next(iter(nxt)) in rest:
                    args.append(rest.pop(next(iter(nxt))))
                    continue
                break
            return tuple(args), tuple(rest.items())
        return args, kw

    def cell_method(self, r, name, args, kw, st, fr, n):
        c = st.cells[r]
        a = self._dargs(args, st)
        if name in ("sort", "reverse") and not args:
            self.replaced(r, st)
            x = as_list(self.deref(st.cells[r], st))
            st.cells[r] = self.builtin("sorted", T("g", "sorted"), (x,), kw, st, fr, n) if name == "sort" else as_list(T("call", T("g", "reversed"), (strip_view(x),), ()))
            return NONE
        if kw:
            return None
        if name == "append" and len(args) == 1:
            v = self.grown(r, st)(args[0])
            st.cells[r] = concat(st.cells[r], T("list", (v,)))
            return NONE
        if name == "extend" and len(args) == 1:
            v = self.grown(r, st)(self.content(args[0], st))
            st.cells[r] = concat(st.cells[r], as_list(v))
            return NONE
        if name == "add" and len(args) == 1:
            st.cells[r] = union(c, T("set", (args[0],)))
            return NONE
        if name == "update" and len(args) == 1:
            x = self.content(args[0], st)
            if r in self.sets or c.op in ("set", "union") or (c.op == "comp" and c.args[0] == "set"):
                x = as_set(x)
                if x.op == "call" and x.args[0].op == "g":
                    gen, elt = self.iter_of(x.args[1][0], st)
                    if gen.op == "fuse":
                        x = T("comp", "set", elt, gen.args[0].args[2], gen.args[0].args[3])
                    else:
                        x = T("comp", "set", elt if x.args[1][0] is gen else self.el(gen), (gen,), TRUE)
                st.cells[r] = union(c, x)
            else:
                self.replaced(r, st)
                st.cells[r] = dcat(st.cells[r], x)
            return NONE
        if name == "copy" and not args:
            return self.alloc(c, st)
        if name in ("keys", "values", "items") and not args:
            return T("call", T("a", c, name), (), ())
        if name == "get" and len(args) in (1, 2):
            v = dict_lookup(c, a[0])
            if v is not None:
                return v
            return lookup(self.deref(r, st), a[0], args[1] if len(a) == 2 else NONE)
        if name == "pop" and len(args) == 1 and c.op == "comp" and c.args[0] == "dict" and len(c.args[2]) == 1:
            k = c.args[1].args[0]
            if k.op == "el" and k.args[0] is c.args[2][0]:
                self.replaced(r, st)
                st.cells[r] = T("comp", "dict", c.args[1], c.args[2], and_(c.args[3], not_(cmp_("==", k, a[0]))))
                return dict_lookup(c, a[0]) or T("i", self.deref(c, st), a[0])
        if name in ("pop", "remove", "discard", "insert", "clear", "popleft", "appendleft", "popitem"):
            self.replaced(r, st)
            c = st.cells[r]
            old = self.deref(c, st)
            if name == "discard" and len(a) == 1:
                # removing what may be absent
                st.cells[r] = ite(cmp_("in", a[0], old), T("mut", old, "remove", a), old)
                return NONE
            st.cells[r] = T("mut", old, name, a)
            if name in ("pop", "popleft", "popitem", "setdefault"):
                return T("call", T("a", old, name), a, ())
            return NONE
        return None

    def change_first(self, r, ft, args, st, fr, n):
        """a library function that changes the list it is given first"""
        a = self._dargs(args, st)
        name = ft.args[0]
        if r.op == "ref":
            self.replaced(r, st)
        cur = self.deref(self.content(r, st), st)
        t = T("call", ft, (cur,) + a, ())
        draws = drawing(name.rsplit(".", 1)[-1])
        if r.op != "ref" or draws:
            t = self.nth(t, st)
            self.emit(t, st, fr, n)
        new = T("mut", cur, t if draws else name, a)
        if r.op == "ref":
            st.cells[r] = new
        else:
            st.ver[r] = new
        return t if name.endswith(("pop", "replace")) else NONE

    def mutate(self, recv, name, args, kw, st, fr, n, delitem=False):
        a = self._dargs(args, st)
        cur = st.ver.get(recv, recv)
        if recv.op == "ref":
            r = self.cell_method(recv, name, args, kw, st, fr, n)
            if r is not None:
                return r
            cur = self.deref(recv, st)
        loc = self.deref(recv, st) if recv.op == "ref" else recv
        t = T("call", T("a", self.deref(loc, st), name), a, self._dkw(kw, st))
        self.emit(t, st, fr, n)
        st.ver[recv] = T("mut", self.deref(cur, st), name, a)
        if name in ("pop", "remove", "discard", "clear", "update", "setdefault"):
            for k in [k for k in st.heap if k.op == "i" and k.args[0] is recv]:
                if name in ("clear", "update") or not a or k.args[1] is a[0]:
                    del st.heap[k]
        if cur is recv:
            return t
        return T("call", T("a", self.deref(cur, st), name), a, self._dkw(kw, st))

    def builtin(self, name, ft, args, kw, st, fr, n):
        c = [self.deref(self.content(a, st), st) for a in args]
        if name == "print":
            if any(a.op != "c" for a in c):
                self.emit(T("print", tuple(c)), st, fr, n)
            return NONE
        if name in ("list", "tuple", "set", "frozenset", "sorted", "max", "min", "len", "any", "all") and len(c) == 1 and c[0].op == "call" \
                and c[0].args[0].op == "a" and c[0].args[0].args[1] == "keys" and not c[0].args[1] and not c[0].args[2]:
            c[0] = c[0].args[0].args[0]   # a dictionary iterates over its keys
            args = (c[0],)
        if name in ("list", "tuple", "set", "frozenset", "dict"):
            if not args and not kw:
                e = T("list", ()) if name in ("list",) else T("tuple", ()) if name == "tuple" else T("dict", ()) if name == "dict" else T("set", ())
                return e if name == "tuple" else self.alloc(e, st)
            if len(args) == 1 and not kw:
                x = c[0]
                if name == "list":
                    return self.alloc(as_list(x), st)
                if name in ("set", "frozenset"):
                    return self.alloc(as_set(x), st)
                if name == "dict":
                    if x.op == "dict" or x.op == "comp" and x.args[0] == "dict":
                        return self.alloc(x, st)
                    if x.op in ("list", "tuple") and all(y.op == "tuple" and len(y.args[0]) == 2 for y in x.args[0]):
                        d = T("dict", ())
                        for y in x.args[0]:
                            d = dict_set(d, *y.args[0])
                        return self.alloc(d, st)
                    if x.op == "comp" and x.args[0] == "list" and x.args[1].op == "tuple" and len(x.args[1].args[0]) == 2:
                        return self.alloc(T("comp", "dict", T("kv", *x.args[1].args[0]), x.args[2], x.args[3]), st)
                    return self.alloc(T("call", ft, (x,), ()), st)
                if name == "tuple" and x.op == "tuple":
                    return x
                if name == "tuple" and x.op == "list":
                    return T("tuple", x.args[0])
            if name == "dict" and not args and all(k != "**" for k, _ in kw):
                d = T("dict", ())
                for k, v in kw:
                    d = dict_set(d, const(k), v)
                return self.alloc(d, st)
        if name == "any" and len(c) == 1:
            return any_of(c[0])
        if name == "all" and len(c) == 1:
            return all_of(c[0])
        if name == "sum" and len(c) in (1, 2):
            x = c[0]
            s0 = c[1] if len(c) == 2 else num(0)
            if x.op == "comp" and x.args[0] == "list":
                return padd(s0, sumc(x.args[1], x.args[2], x.args[3]))
            if x.op == "list":
                r = s0
                for y in x.args[0]:
                    r = padd(r, y)
                return r
            if x.op == "call" and x.args[0].op == "a" and x.args[0].args[1] == "values" and not x.args[1]:
                d = x.args[0].args[0]
                return padd(s0, sumc(T("i", d, self.el(d)), (d,), TRUE))
            if is_path(x):
                return padd(s0, sumc(self.el(x), (x,), TRUE))
        if name in ("max", "min") and len(c) >= 2 and not kw:
            return minmax(name, c)
        if name in ("max", "min") and len(c) == 1 and not kw and c[0].op == "concat" and any(
                x.op in ("list", "tuple") and x.args[0] and all(y.op != "star" for y in x.args[0]) for x in c[0].args[0]):
            return minmax(name, [z for x in c[0].args[0] for z in (x.args[0] if x.op in ("list", "tuple") else (T("best", name, x),))])
        if name == "max" and len(c) == 1 and dict(kw).keys() == {"default"} and is_num(dict(kw)["default"]) and dict(kw)["default"].args[1] == 0:
            return minmax(name, [num(0), T("best", name, as_list(c[0]))])   # quantities are not negative
        if name in ("max", "min") and len(c) == 1 and not kw and c[0].op in ("list", "tuple") and len(c[0].args[0]) > 0 and all(x.op != "star" for x in c[0].args[0]):
            return minmax(name, list(c[0].args[0]))
        if name == "isinstance" and len(c) == 2 and c[1].op == "tuple":
            return or_(*[T("call", ft, (c[0], k), ()) for k in c[1].args[0]])
        if name == "len" and len(c) == 1:
            return length(c[0], ft)
        if name == "getattr" and len(c) == 2 and is_str(c[1]):
            return self.attr(args[0], c[1].args[1], st, fr)
        if name == "bool" and len(c) == 1:
            return truthy(c[0])
        if name in ("map", "filter") and len(args) == 2 and args[0].op in ("clo", "g") and c[1].op == "ite":
            x = c[1]
            return ite(x.args[0], *[self.builtin(name, ft, (args[0], y), (), st, fr, n) for y in x.args[1:]])
        if name == "abs" and len(c) == 1 and c[0].op == "poly":
            a, b = c[0], pneg(c[0])
            return T("call", ft, (min(a, b, key=key_of),), ())
        if name == "map" and len(args) == 2 and args[0].op in ("clo", "g"):
            gen, elt = self.iter_of(c[1], st)
            gs, g = ((gen,), TRUE) if gen.op != "fuse" else gen.args[0].args[2:4]
            for x in gs:
                self.push_gen(x)
            v = self.call_value(args[0], (elt,), (), st, fr, n)
            for x in gs:
                self.pop_gen(x)
            return flat(T("list", (self.deref(v, st),)), tuple(gs), "list", g)
        if name == "filter" and len(args) == 2 and args[0].op in ("clo", "g"):
            gen, elt = self.iter_of(c[1], st)
            gs, g = ((gen,), TRUE) if gen.op != "fuse" else gen.args[0].args[2:4]
            for x in gs:
                self.push_gen(x)
            gd = st.guard
            st.guard = and_(gd, g)
            v = self.call_value(args[0], (elt,), (), st, fr, n)
            st.guard = gd
            for x in gs:
                self.pop_gen(x)
            return flat(T("list", (elt,)), tuple(gs), "list", and_(g, truthy(self.deref(v, st))))
        if name == "sorted" and len(c) == 1 and _in_order(c[0], self._dkw(kw, st)):
            return self.alloc(c[0], st)
        if name in ("sorted", "reversed", "max", "min") and len(c) == 1:
            while c[0].op == "call" and c[0].args[0].op == "g" and c[0].args[0].args[0] in ("list", "tuple") and len(c[0].args[1]) == 1:
                c[0] = c[0].args[1][0]
        return self.nth(T("call", ft, tuple(c), self._dkw(kw, st)), st)

    # --------------------------------------------------------------- inline
    def inline(self, fi, cls, recv, args, kw, st, fr, n):
        fr2 = Frame(fi, cls, fi.cls, fr.depth + 1)
        k = fi.kind()
        skip = k in ("method", "class", "property")
        b = bind_map(fi, args, kw, skip)
        if b is None:
            return self.opaque_call(T("g", fi.qual) if not skip else T("a", recv, fi.name), args, kw, st, fr, n)
        return self._run_inline(fi, fr2, b, recv if skip else None, st, fr, None)

    def inline_closure(self, t, args, kw, st, fr, n):
        rec = self.closures[t]
        fi, dfr = rec[0], rec[1]
        if fr.depth >= self.max_depth or fi in self.stack:
            return self.opaque_call(T("clorec", len(self.stack) - self.stack.index(fi) if fi in self.stack else fi.name), args, kw, st, fr, n)
        fr2 = Frame(fi, dfr.cls, dfr.defcls, fr.depth + 1)
        b = bind_map(fi, args, kw, False)
        if b is None:
            return self.opaque_call(T("cloname", fi.name), args, kw, st, fr, n)
        base_env = rec[2].env if len(rec) > 2 else None
        return self._run_inline(fi, fr2, b, None, st, fr, base_env if base_env is not None else dict(st.env) if dfr is fr else dfr_env(dfr, st))

    def _run_inline(self, fi, fr2, b, recv, st, fr, base_env):
        s = st.copy()
        s.env = dict(base_env) if base_env is not None else {}
        # defaults
        a = fi.node.args
        ps = [x.arg for x in a.posonlyargs + a.args]
        if recv is not None and ps:
            s.env[ps[0]] = recv
        dn = len(a.defaults)
        for p, d in zip(ps[len(ps) - dn:], a.defaults):
            if p not in b:
                b[p] = self.ev(d, s, fr2)
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if p.arg not in b and d is not None:
                b[p.arg] = self.ev(d, s, fr2)
        for k, v in b.items():
            s.env[k] = v
        for p in ps:
            if p not in s.env:
                s.env[p] = T("missing", p)
        self.stack.append(fi)
        loops = self.loops
        g0 = st.guard
        end = self.block(fi.node.body, s, fr2)
        self.stack.pop()
        if not end.dead:
            fr2.rets.append((end.guard, NONE, end))
        if not fr2.rets:
            st.dead = True
            return T("noreturn")
        val = None
        fin = None
        for g, v, s2 in reversed(fr2.rets):
            s2 = s2.copy()
            s2.dead = False
            g2 = g
            val = v if val is None else ite(rel(g2, g0), v, val)
            if fin is None:
                fin = s2
            else:
                gg = fin.guard
                fin = merge(rel(g2, g0), s2, fin)
        st.heap = fin.heap
        st.ver = fin.ver
        st.cells = fin.cells
        newg = or_(*[g for g, _, _ in fr2.rets])
        from .canon import canon, TooBig
        try:
            if canon(newg) is canon(g0):
                newg = g0
        except TooBig:
            pass
        st.guard = newg
        return val

    # ---------------------------------------------------------------- deref
    def content(self, v, st):
        if v.op == "ref":
            return st.cells.get(v, v)
        w = st.ver.get(v)
        if w is not None:
            return w
        return v

    def deref_shallow(self, v, st):
        return v

    def deref(self, v, st, memo=None):
        memo = {} if memo is None else memo

        def rec(x):
            r = memo.get(x)
            if r is not None:
                return r
            if x.op == "ref":
                c = st.cells.get(x)
                if c is None:
                    return T("unk")
                memo[x] = T("cyc")
                r = rec(c)
            elif x.op == "clo":
                memo[x] = T("cyc")
                r = self.lam(x, st)
            else:
                r = rebuild(x, rec)
            memo[x] = r
            return r

        return rec(v)

    def deref_but(self, t, st, older):
        """The value of t, in which objects that exist already are named, not copied, where they are held (not looked into)."""
        memo = {}
        full = {}

        def rec(x):
            if x.op == "ref":
                if x in older:
                    return x
                if x in memo:
                    return memo[x]
                c = st.cells.get(x)
                if c is None:
                    return T("unk")
                memo[x] = T("cyc")
            elif x.op not in HOLDERS:
                return self.deref(x, st, full)
            else:
                r = memo.get(x)
                if r is not None:
                    return r
                c = None
            r = rec(c) if c is not None else rebuild(x, rec)
            memo[x] = r
            return r

        return rec(t)

    def lam(self, t, st):
        rec = self.closures[t]
        fi = rec[0]
        if fi in self.stack:
            return T("clorec", len(self.stack) - self.stack.index(fi) if fi in self.stack else fi.name)
        a = fi.node.args
        ps = [x.arg for x in a.posonlyargs + a.args]
        d = len(self.stack)
        args = [T("lp", self.lamdepth, i) for i in range(len(ps))]
        ev0, or0 = self.events, self._order
        self.events = []
        lp0, self.lpstack = self.lpstack, []
        s = st.copy()
        s.dead = False
        fr = rec[1]
        loops0, self.loops = self.loops, ()
        held0, self.held = self.held, ()
        self.lamdepth += 1
        s.guard = TRUE
        v = self.inline_closure(t, tuple(args), (), s, Frame(fr.fi, fr.cls, fr.defcls, 0), fi.node)
        self.lamdepth -= 1
        self.loops, self.held = loops0, held0
        events = self.events
        self.events, self._order = ev0, or0
        self.lpstack = lp0
        v = self.deref(v, s)
        seen = set()
        used = set(subterms(v, seen))
        for e in events:
            for x in (e.guard,) + tuple(e.loops) + tuple(children(e.term)):
                used |= set(subterms(x, seen))
        effects = [e for e in events if e.kind in ("store", "setitem", "delattr", "raise", "yield")
                   or e.kind == "call" and e.term not in used and not ignored(e.term)]
        return T("lam", len(ps), v, T("effs", tuple(T("eff", e.term, e.guard, tuple(e.loops)) for e in effects)))


def _count_breaks(body):
    n = 0
    for x in body:
        if isinstance(x, ast.Break):
            n += 1
        elif isinstance(x, (ast.For, ast.While)):
            n += _count_breaks(x.orelse)
        elif isinstance(x, ast.Try):
            n += 9 * any(isinstance(y, ast.Break) for y in ast.walk(x))   # leaves it another way
        elif not isinstance(x, (ast.FunctionDef, ast.ClassDef)):
            for f in ("body", "orelse"):
                n += _count_breaks(getattr(x, f, None) or [])
    return n


def _leave(b, rest):
    r = _Leave(rest).visit(copy.deepcopy(b))
    return r if isinstance(r, list) else [r]


class _Leave(ast.NodeTransformer):
    """What follows the loop instead of its breaks."""
    def __init__(self, rest):
        self.rest = rest

    def visit_Break(self, n):
        return [copy.deepcopy(x) for x in self.rest]

    def _loop(self, n):
        n.orelse = [y for x in n.orelse for y in (lambda r: r if isinstance(r, list) else [r])(self.visit(x))]
        return n

    visit_For = visit_While = _loop

    def visit_FunctionDef(self, n):
        return n

    visit_Lambda = visit_ClassDef = visit_FunctionDef


class _Next(ast.NodeTransformer):
    """i where it has gone up by one already"""
    def __init__(self, i):
        self.i = i

    def visit_Name(self, n):
        if n.id == self.i and isinstance(n.ctx, ast.Load):
            return ast.copy_location(ast.BinOp(left=n, op=ast.Add(), right=ast.Constant(value=1)), n)
        return n


class _Elements(ast.NodeTransformer):
    def __init__(self, seq, index, name):
        self.seq, self.index, self.name = seq, index, name

    def visit_Subscript(self, n):
        if isinstance(n.value, ast.Name) and n.value.id == self.seq and isinstance(n.slice, ast.Name) and n.slice.id == self.index and isinstance(n.ctx, ast.Load):
            return ast.copy_location(ast.Name(id=self.name, ctx=ast.Load()), n)
        return self.generic_visit(n)


def _callables(v):
    if v.op == "ite":
        return _callables(v.args[1]) and _callables(v.args[2])
    return v.op in ("clo", "g", "a", "lam") or v is NONE or v is UNDEF


IGNORE_ROOTS = ("logging.", "warnings.", "time.", "logger", "matplotlib.", "os.makedirs")


def call_root(l):
    f = l.args[0]
    parts = []
    while f.op == "a":
        parts.insert(0, f.args[1])
        f = f.args[0]
    if f.op == "g":
        parts.insert(0, f.args[0])
    return ".".join(parts)


def ignored(l, extra=()):
    r = call_root(l)
    if r.startswith(IGNORE_ROOTS) or any(r == x or r.endswith("." + x) for x in extra):
        return True
    if "logger." in r or ".logger" in r:
        return True
    f = l.args[0]
    if f.op == "a" and len(f.args[1]) > 3 and f.args[1].startswith("Get") and f.args[1][3].isupper():
        return True    # asks a library for something nobody uses
    return False


def fmt_str(s, args):
    import string
    parts = []
    k = 0
    try:
        for lit, field, spec, conv in string.Formatter().parse(s):
            if lit:
                parts.append(const(lit))
            if field is None:
                continue
            if spec or conv:
                return None
            if field == "":
                j = k
                k += 1
            elif field.isdigit():
                j = int(field)
            else:
                return None
            if j >= len(args) or args[j].op == "star":
                return None
            parts.append(T("fmt", args[j]))
    except ValueError:
        return None
    return fstr(parts)


def dfr_env(dfr, st):
    return dict(st.env)


def rel(g, g0):
    """Guard g relative to the enclosing guard g0 (g implies g0)."""
    if g0 is TRUE:
        return g
    base = set(g0.args[0]) if g0.op == "and" else {g0}
    if g.op == "and":
        return and_(*[x for x in g.args[0] if x not in base])
    if g in base or g is g0:
        return TRUE
    return g


FIRST_MUTATORS = {"heapq.heappush", "heapq.heappop", "heapq.heapify", "heapq.heapreplace", "heapq.heappushpop", "random.shuffle",
                  "bisect.insort", "bisect.insort_left", "bisect.insort_right", "numpy.random.shuffle"}
STD_MODULES = {"random", "copy", "heapq", "math", "itertools", "functools", "json", "os", "bisect", "collections", "shutil", "time", "datetime"}
SIGS = {"numpy." + k: v.split() for k, v in {
    "zeros": "shape dtype", "ones": "shape dtype", "empty": "shape dtype", "full": "shape fill_value dtype", "array": "object dtype", "asarray": "a dtype",
    "sum": "a axis", "mean": "a axis", "max": "a axis", "min": "a axis", "amax": "a axis", "amin": "a axis", "std": "a axis", "argmax": "a axis", "argmin": "a axis",
    "cumsum": "a axis", "prod": "a axis", "clip": "a a_min a_max", "linspace": "start stop num", "concatenate": "arrays axis", "repeat": "a repeats axis",
    "random.choice": "a size replace p", "random.uniform": "low high size", "random.normal": "loc scale size", "random.randint": "low high size",
    "argsort": "a axis", "sort": "a axis", "reshape": "a shape", "dot": "a b", "where": "condition x y", "isin": "element test_elements"}.items()}
_sigs = {}


_GETITEM = ast.parse("lambda k: b[k]", mode="eval").body
_GETITEM.body.value.id = "$b"


def self_reads(prog, name, seen=None):
    """Attributes of self a method of that name may look at (None: any)."""
    if not hasattr(prog, "_self_reads"):
        prog._self_reads = {}
    if seen is None and name in prog._self_reads:
        return prog._self_reads[name]
    top = seen is None
    seen = {name} if top else seen | {name}
    out = set()
    for fi in prog.method_index.get(name, ()) or ():
        ps = [a.arg for a in fi.node.args.posonlyargs + fi.node.args.args]
        if not ps:
            continue
        own = set()
        for x in ast.walk(fi.node):
            if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == ps[0]:
                own.add(id(x.value))
                out.add(x.attr)
                if x.attr in prog.method_index and x.attr not in seen:
                    r = self_reads(prog, x.attr, seen)
                    out = None if r is None else out | r
                    if out is None:
                        break
        if out is not None and any(isinstance(x, ast.Name) and (x.id == ps[0] and id(x) not in own or x.id == "super") for x in ast.walk(fi.node)):
            out = None
        if out is None:
            break
    if not prog.method_index.get(name):
        out = None
    if top:
        prog._self_reads[name] = out
    return out


def self_writes(prog, name, seen=None):
    """Attributes of self a method of that name may assign or change in place."""
    if not hasattr(prog, "_self_writes"):
        prog._self_writes = {}
    if seen is None and name in prog._self_writes:
        return prog._self_writes[name]
    top = seen is None
    seen = {name} if top else seen
    out = set()
    for fi in prog.method_index.get(name, ()) or ():
        ps = [a.arg for a in fi.node.args.posonlyargs + fi.node.args.args]
        if not ps or fi.kind() != "method":
            continue

        def root(x):
            while isinstance(x, (ast.Attribute, ast.Subscript)):
                if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name):
                    return x.attr if x.value.id == ps[0] else None
                x = x.value
            return None

        for x in ast.walk(fi.node):
            if isinstance(x, (ast.Attribute, ast.Subscript)) and not isinstance(x.ctx, ast.Load):
                out.add(root(x))
            elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute):
                if x.func.attr in MUTATORS:
                    out.add(root(x.func.value))
                elif isinstance(x.func.value, ast.Name) and x.func.value.id == ps[0] and x.func.attr not in seen:
                    seen.add(x.func.attr)
                    out |= self_writes(prog, x.func.attr, seen)
    out.discard(None)
    if top:
        out = tuple(sorted(out))
        prog._self_writes[name] = out
    return out


def dead_stores(events, prog):
    """Attributes of self assigned again before anything could look at them."""
    out = []
    pending = {}
    drop = set()
    for e in events:
        t = e.term
        if t.op == "store" and t.args[0].op == "self":
            k = (t.args[1], e.loops, e.held)
            for x in list(pending.get(k, ())):
                x.guard = and_(x.guard, not_(e.guard))
                if x.guard is FALSE:
                    drop.add(x)
                    pending[k].remove(x)
            pending.setdefault(k, []).append(e)
        elif t.op == "call":
            f = t.args[0]
            n = 0
            while f.op == "a":
                f = f.args[0]
                n += 1
            if any(x.op == "self" for x in t.args[1]) or any(v.op == "self" for k, v in t.args[2]):
                pending.clear()
            elif f.op == "self" and n == 1:
                r = self_reads(prog, t.args[0].args[1])
                for k in list(pending):
                    if r is None or k[0] in r:
                        del pending[k]
            elif f.op not in ("g", "self"):
                pending.clear()
        elif t.op in ("yield", "enter", "raise", "delattr"):
            pending.clear()
    return [e for e in events if e not in drop]


def _is_enum(k):
    """An enumeration whose members have pairwise different literal values."""
    if not any(ast.unparse(b).rsplit(".", 1)[-1] in ("Enum", "IntEnum") for b in k.node.bases):
        return False
    vals = []
    for v in k.attrs.values():
        v = v[1] if isinstance(v, tuple) else v
        if isinstance(v, ast.Constant):
            vals.append(repr(v.value))
        elif isinstance(v, ast.Call) and ast.unparse(v.func).endswith("auto") and not v.args:
            vals.append(("auto", len(vals)))
        else:
            return False
    return len(vals) == len(set(vals)) and not (any(isinstance(x, tuple) for x in vals) and any(isinstance(x, str) for x in vals))


def fresh_gate(v):
    """A gated value one of whose alternatives is an object created here."""
    return v.op == "ite" and any(x.op == "ref" or fresh_gate(x) for x in v.args[1:])


@functools.lru_cache(maxsize=None)
def _procedure(node):
    r = getattr(node, "returns", None)
    if not (isinstance(r, ast.Constant) and r.value is None):
        return False
    todo = list(node.body)
    while todo:
        x = todo.pop()
        if isinstance(x, (ast.Yield, ast.YieldFrom)) or (isinstance(x, ast.Return) and x.value is not None
                                                         and not isinstance(x.value, (ast.Call, ast.Constant))):
            return False
        if not isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            todo.extend(ast.iter_child_nodes(x))
    return True


def bind_stdlib(name, args, kw):
    """Positional form of a call to a known library function, defaults left out."""
    if any(a.op == "star" for a in args) or any(k == "**" for k, _ in kw):
        return args, kw
    s = _sigs.get(name)
    if s is None:
        s = ()
        if name in SIGS:
            s = tuple((p, None, True) for p in SIGS[name])
        else:
            mod, _, fn = name.partition(".")
            if mod == "simplejson":
                mod = "json"
            if mod in STD_MODULES and fn:
                import importlib
                import inspect
                try:
                    o = importlib.import_module(mod)
                    for p in fn.split("."):
                        o = getattr(o, p)
                    s = []
                    for p in inspect.signature(o).parameters.values():
                        if p.kind in (p.VAR_POSITIONAL, p.VAR_KEYWORD):
                            s = ()
                            break
                        d = p.default
                        d = const(d) if d is None or isinstance(d, (bool, int, float, str)) else None
                        s.append((p.name, d, p.kind is not p.KEYWORD_ONLY))
                    s = tuple(s)
                except Exception:
                    s = ()
        _sigs[name] = s
    if not s or len(args) > len([x for x in s if x[2]]):
        return args, kw
    kw = dict(kw)
    out = list(args)
    for p, d, pos in s[len(args):]:
        if pos and p in kw:
            out.append(kw.pop(p))
        elif pos and d is not None and any(q in kw for q, _, z in s if z):
            out.append(d)
        else:
            break
    pos = [x for x in s if x[2]]
    while out and len(out) <= len(pos) and pos[len(out) - 1][1] is not None and out[-1] is pos[len(out) - 1][1]:
        out.pop()
    dv = {p: d for p, d, _ in s}
    return tuple(out), tuple((k, v) for k, v in kw.items() if dv.get(k) is None or dv[k] is not v)


_NOFUNC = ast.parse("def _(): pass").body[0]
OPERATORS = {k: "lambda a, b: a %s b" % o for k, o in (("lt", "<"), ("le", "<="), ("gt", ">"), ("ge", ">="), ("eq", "=="), ("ne", "!="), ("add", "+"),
             ("sub", "-"), ("mul", "*"), ("truediv", "/"), ("floordiv", "//"), ("mod", "%"), ("pow", "**"), ("and_", "&"), ("or_", "|"), ("xor", "^"),
             ("is_", "is"), ("is_not", "is not"), ("getitem", None)) if o}
OPERATORS.update({"getitem": "lambda a, b: a[b]", "contains": "lambda a, b: b in a", "not_": "lambda a: not a", "neg": "lambda a: -a"})


def as_number(t):
    """Booleans in arithmetic count one or zero."""
    if is_bool(t) and t.op != "ite":
        return ite(t, num(1), num(0))
    return t


def is_path(t):
    while t.op in ("a", "i"):
        t = t.args[0]
    return t.op in ("self", "p", "el", "call", "g")


def _breaks(stmts):
    """These statements leave, or go on with, the loop around them."""
    def go(x):
        if isinstance(x, (ast.Break, ast.Continue)):
            return True
        if isinstance(x, (ast.For, ast.While, ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            return any(go(y) for y in getattr(x, "orelse", ())) if isinstance(x, (ast.For, ast.While)) else False
        return any(go(y) for y in ast.iter_child_nodes(x))

    return any(go(x) for x in stmts)


def stored(stmts):
    """Names a class body binds."""
    out = set()
    for b in stmts:
        if isinstance(b, (ast.FunctionDef, ast.ClassDef)):
            out.add(b.name)
        else:
            out |= {x.id for x in ast.walk(b) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
    return out


def as_list(x):
    if x.op in ("list", "concat") or (x.op == "comp" and x.args[0] == "list"):
        return x
    if x.op == "tuple":
        return T("list", x.args[0])
    if x.op == "ite":
        return ite(x.args[0], as_list(x.args[1]), as_list(x.args[2]))
    if x.op == "call" and x.args[0].op == "a" and x.args[0].args[1] == "keys" and not x.args[1]:
        x = x.args[0].args[0]
    if x.op == "call" and x.args[0] is LIST and len(x.args[1]) == 1:
        return x
    if x.op in ("dict", "set") and not x.args[0]:
        return T("list", ())
    return T("call", LIST, (x,), ())


def as_set(x):
    if x.op == "ite":
        return ite(x.args[0], as_set(x.args[1]), as_set(x.args[2]))
    if x.op in ("set", "union") or (x.op == "comp" and x.args[0] == "set"):
        return x
    if x.op in ("tuple", "list"):
        return union(*[T("set", (y,)) for y in x.args[0]]) if x.args[0] else T("set", ())
    if x.op == "comp" and x.args[0] == "list":
        return T("comp", "set", *x.args[1:])
    if x.op == "call" and x.args[0].op == "g" and x.args[0].args[0] in ("list", "tuple", "sorted") and len(x.args[1]) == 1:
        return as_set(x.args[1][0])
    if x.op == "call" and x.args[0].op == "a" and x.args[0].args[1] == "keys" and not x.args[1]:
        return as_set(x.args[0].args[0])
    if x.op == "call" and x.args[0].op == "g" and x.args[0].args[0] == "set":
        return x
    return T("call", T("g", "set"), (x,), ())


def any_of(x):
    if x.op == "comp":
        return any_(and_(x.args[3], truthy(x.args[1])), x.args[2])
    if x.op in ("list", "tuple") and all(y.op != "star" for y in x.args[0]):
        return or_(*[truthy(y) for y in x.args[0]])
    if x.op == "call" and x.args[0].op == "a" and x.args[0].args[1] == "values":
        d = x.args[0].args[0]
        return any_(T("i", d, T("el", d, 0)), (d,))
    return any_(T("el", x, 0), (x,))


def all_of(x):
    if x.op == "comp":
        return not_(any_(and_(x.args[3], not_(truthy(x.args[1]))), x.args[2]))
    if x.op in ("list", "tuple") and all(y.op != "star" for y in x.args[0]):
        return and_(*[truthy(y) for y in x.args[0]])
    return not_(any_(not_(T("el", x, 0)), (x,)))


def dict_lookup(c, k):
    if c.op == "list" or c.op == "tuple":
        r = index(c, k)
        return r if r.op != "i" else None
    if c.op == "dict":
        for e in reversed(c.args[0]):
            if e.op == "kv":
                if e.args[0] is k:
                    return e.args[1]
                if is_const(e.args[0]) and is_const(k):
                    continue
            return None
        return None
    if c.op == "dcat":
        return dict_lookup(c.args[0][-1], k)
    if c.op == "ite":
        a, b = dict_lookup(c.args[1], k), dict_lookup(c.args[2], k)
        if a is not None and b is not None:
            return ite(c.args[0], a, b)
    return None


def _in_order(c, kw):
    """A list of tuples made along one sequence and sorted by the position that each holds."""
    if not (c.op == "comp" and c.args[0] == "list" and len(c.args[2]) == 1 and c.args[1].op == "tuple"):
        return False
    (g,), e = c.args[2], c.args[1]
    if len(kw) != 1 or kw[0][0] != "key" or kw[0][1].op != "lam":
        return False
    b = kw[0][1].args[1]
    if not (b.op == "i" and b.args[0].op == "lp" and is_num(b.args[1]) and b.args[1].args[1].denominator == 1 and 0 <= b.args[1].args[1] < len(e.args[0])):
        return False
    x = e.args[0][int(b.args[1].args[1])]
    return x.op == "idx" and x.args[0] is g or x.op == "el" and x.args[0] is g and _is_range(g)


def _one_of(content, kind):
    """(element, condition) when the content is one and the same element or nothing."""
    from .compare import leaf_table
    tab = {l: g for l, g in leaf_table(content).items() if not (l.op in ("list", "set", "dict") and not l.args[0])}
    if len(tab) == 1:
        (l, g), = tab.items()
        if l.op == kind and len(l.args[0]) == 1 and l.args[0][0].op not in ("kvp", "star"):
            return l, g
    return None


def flat(content, gens, kind, cond=TRUE):
    """for gens: if cond: out += content, as a comprehension term."""
    empty = T(kind if kind != "list" else "list", ())
    if content.op == "ite" and (content.args[1].op == "ite" or content.args[2].op == "ite"):
        r = _one_of(content, kind)
        if r is not None:
            return flat(r[0], gens, kind, and_(cond, r[1]))
    if content is empty or (content.op in ("list", "set", "dict") and not content.args[0]):
        return empty
    if content.op == "ite":
        c, a, b = content.args
        ea = a.op in ("list", "set", "dict") and not a.args[0]
        eb = b.op in ("list", "set", "dict") and not b.args[0]
        if eb:
            return flat(a, gens, kind, and_(cond, c))
        if ea:
            return flat(b, gens, kind, and_(cond, not_(c)))
        if a.op == b.op and a.op in ("list", "set", "dict") and len(a.args[0]) == 1 and len(b.args[0]) == 1:
            x, y = a.args[0][0], b.args[0][0]
            if x.op == "kv" and y.op == "kv":
                if x.args[0] is y.args[0]:
                    return T("comp", kind, T("kv", x.args[0], ite(c, x.args[1], y.args[1])), gens, cond)
            elif x.op != "kvp":
                return T("comp", kind, ite(c, x, y), gens, cond)
    if content.op == kind and len(content.args[0]) == 1 and content.args[0][0].op not in ("kvp", "star"):
        return T("comp", kind, content.args[0][0], gens, cond)
    if content.op == "comp" and content.args[0] == kind:
        return T("comp", kind, content.args[1], gens + content.args[2], and_(cond, content.args[3]))
    return T("comp", "flat" + kind, content, gens, cond)


def literal(v):
    try:
        x = ast.literal_eval(v)
    except Exception:
        return None
    return lit_term(x)


def lit_term(x):
    if x is None or isinstance(x, (bool, int, float, str)):
        return const(x)
    if isinstance(x, tuple):
        e = [lit_term(y) for y in x]
        return None if any(y is None for y in e) else T("tuple", tuple(e))
    return None


def bind_map(fi, args, kw, skip):
    a = fi.node.args
    ps = [x.arg for x in a.posonlyargs + a.args]
    if skip:
        ps = ps[1:]
    b = {}
    if any(x.op == "star" for x in args) or any(k == "**" for k, _ in kw):
        if not (a.vararg or a.kwarg):
            return None
        return None
    if len(args) > len(ps) and not a.vararg:
        return None
    for p, x in zip(ps, args):
        b[p] = x
    if a.vararg:
        b[a.vararg.arg] = T("tuple", tuple(args[len(ps):]))
    names = set(ps) | {x.arg for x in a.kwonlyargs}
    rest = []
    for k, v in kw:
        if k in names:
            b[k] = v
        elif a.kwarg:
            rest.append((k, v))
        else:
            return None
    if a.kwarg:
        d = T("dict", ())
        for k, v in rest:
            d = dict_set(d, const(k), v)
        b[a.kwarg.arg] = d
    return b


def bind_args(fi, args, kw, skip_self, lit=None):
    """Positional canonical arguments of a call to a known function."""
    a = fi.node.args
    ps = [x.arg for x in a.posonlyargs + a.args]
    if skip_self and ps:
        ps = ps[1:]
    defaults = {}
    for p, d in zip(ps[len(ps) - len(a.defaults):], a.defaults) if a.defaults else []:
        defaults[p] = d
    return bind_fields(ps, defaults, args, kw, a.vararg is not None)


def bind_fields(ps, defaults, args, kw, vararg=False):
    if any(x.op == "star" for x in args) or any(k == "**" for k, _ in kw):
        return args, kw
    if len(args) > len(ps):
        return args, kw
    out = list(args)
    rest = dict(kw)
    pend = []
    for p in ps[len(args):]:
        if p in rest:
            pend.append(rest.pop(p))
        elif p in defaults:
            t = literal(defaults[p])
            if t is None:
                # unknown default: stop positional form here
                pend.append(T("dflt", p))
            else:
                pend.append(t)
        else:
            break
    else:
        return tuple(out + pend), tuple(rest.items())
    # a required parameter is missing: keep what we have as keywords
    return tuple(out + pend), tuple(rest.items())
