"""Check driver: obligations, violations, known findings, evidence."""
import ast
import json
import os
import sys
import signal
import time
import traceback

from . import spec as _spec
from .program import Program, FuncInfo
from .engine import Engine
from .terms import *
from . import canon as _canon
from .canon import canon, TooBig, implies
from .compare import diff, order_diff

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SA_REPO", "/repo")
PKG = "skdecide/"


def _generator(fn):
    """Does the function produce its values by yield (or by await)?"""
    if isinstance(fn, ast.AsyncFunctionDef):
        return True
    todo = list(fn.body)
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom, ast.Await)):
            return True
        if not isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
            todo += list(ast.iter_child_nodes(n))
    return False


def _dflt(x):
    try:
        return repr(ast.literal_eval(x))
    except Exception:
        return ast.unparse(x).split(".")[-1]


def decorator_list(fi):
    out = []
    for d in fi.node.decorator_list:
        f = d.func if isinstance(d, ast.Call) else d
        n = fi.module.dotted(f) or ast.unparse(f)
        out.append(n + (ast.unparse(d)[len(ast.unparse(f)):] if isinstance(d, ast.Call) else ""))
    return out


DECOS = json.load(open(os.path.join(HERE, "sa", "decorators.json")))


class OutOfTime(BaseException):
    pass


TOTAL = 700  # seconds of processor time for a whole check


class time_limit:
    def __init__(self, s):
        self.s = s

    def __enter__(self):
        import threading
        self.on = threading.current_thread() is threading.main_thread()
        if self.on:
            def stop(*_):
                raise OutOfTime()
            self.old = signal.signal(signal.SIGPROF, stop)
            self.t0 = time.process_time()
            self.outer = signal.getitimer(signal.ITIMER_PROF)[0]
            left = max(1, min(self.s, TOTAL - self.t0))
            signal.setitimer(signal.ITIMER_PROF, min(left, self.outer) if self.outer else left)

    def __exit__(self, *a):
        if self.on:
            signal.signal(signal.SIGPROF, self.old)
            signal.setitimer(signal.ITIMER_PROF, max(0.01, self.outer - (time.process_time() - self.t0)) if self.outer else 0)


class Ctx:
    def __init__(self, prop, tier="quick", repo=REPO, prog=None):
        self.prop = prop
        self.tier = tier
        self.repo = repo
        self.prog = prog or Program(repo)
        self.vocab = set(json.load(open(os.path.join(HERE, "sa", "vocab.json"))))
        self.violations = []     # dicts
        self.obligations = []    # (rule, construct, ok)
        self.errors = []
        self.undec = []
        self.notes = []
        self.functions = set()
        self.sites = 0
        self.rules = {}
        self.samples = []
        self._sum = {}
        self._specfn = {}
        self._asked = {}
        self._groups = {}
        self.called = set()

    # ------------------------------------------------------------- reporting
    def rule(self, name, text):
        self.rules[name] = text

    def ob(self, ok, rule, construct, where, msg):
        """One obligation. construct must be stable under moves of lines."""
        self.obligations.append((rule, construct, bool(ok)))
        if not ok:
            self.violations.append({"rule": rule, "construct": construct, "where": where, "message": msg})
        return ok

    def undecided(self, qual, why):
        self.undec.append("%s: %s" % (qual, why))
        return 0

    def error(self, msg):
        self.errors.append(msg)

    # --------------------------------------------------------------- lookups
    def cls(self, rel, name):
        c = self.prog.cls(PKG + rel, name)
        if c is None:
            m = self.prog.module(PKG + rel)
            d = m.resolve_own(name) if m else None
            c = self.prog.classes.get(d) if d else None
        if c is None:
            self.error("class %s not found in %s" % (name, rel))
        return c

    def fn(self, rel, qual):
        """(FuncInfo, ClassInfo|None) for 'Class.method' (resolved through the MRO) or 'function'."""
        if "." in qual:
            cn, mn = qual.rsplit(".", 1)
            c = self.cls(rel, cn)
            if c is None:
                return None, None
            fi = self.prog.lookup(c, mn)
            if fi is None:
                self.missing(rel, qual, mn, cls=c)
                return None, None
            return fi, c
        m = self.prog.module(PKG + rel)
        if m is None:
            self.error("module %s not found" % rel)
            return None, None
        fi = m.funcs.get(qual)
        if fi is None:
            d = m.resolve_own(qual)
            fi = self.prog.func_by_qual(d) if d else None
        if fi is None:
            self.missing(rel, qual, qual)
        return fi, None

    def missing(self, rel, qual, name, cls=None):
        """A contract without a function. A private helper may be expanded into its callers (whose contracts then
        carry its effects); anything others can name must exist."""
        users = []
        for m in self.prog.modules.values():
            for x in ast.walk(m.tree):
                if isinstance(x, ast.Attribute) and x.attr == name or isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, ast.Load):
                    users.append(m.rel)
        if name.startswith("_") and not name.startswith("__") and not name.endswith("_") and not users:
            self.notes.append("%s::%s no longer exists and nothing refers to it; its callers' contracts cover it" % (rel, qual))
            return
        self.rule("missing", "every function that carries a contract and can be named from elsewhere is defined")
        self.ob(False, "missing", "%s::%s" % (rel, qual), PKG + rel, "%s is not defined (searched the MRO), but is part of the interface%s" % (
            qual, " and used in " + ", ".join(sorted(set(users))[:4]) if users else ""))

    def summary(self, fi, cls=None, inline=None, key=None, spec_imports=None, max_depth=None, trace=False, relaxed=False):
        k = (fi.qual, fi.node, cls.qual if cls else None, key, trace, relaxed)
        if k in self._sum:
            return self._sum[k]
        e = Engine(self.prog, self.vocab, inline)
        e.spec_module = spec_imports
        e.spec_funcs = self._specfn
        e.trace_loads = trace
        e.relaxed = relaxed
        if fi.qual.startswith("spec:"):
            e.spec_data = spec_data()
        if max_depth:
            e.max_depth = max_depth
        s = e.summarise(fi, cls)
        self._sum[k] = s
        self.functions.add(fi.qual)
        return s

    # ----------------------------------------------------------------- specs
    def load_specs(self, name):
        if name in self._groups:
            return self._groups[name]
        groups = self._groups[name] = {}
        for f in _spec.load_spec(os.path.join(HERE, "specs", name)):
            groups.setdefault((f.rel, f.qual), []).append(f)
        for (rel, qual), alts in groups.items():
            m = self.prog.module(rel)
            if m is not None:
                node = alts[0].node
                cn, _, mn = qual.rpartition(".")
                c = m.classes.get(cn) if cn else None
                fi = FuncInfo(node, m, c, "spec:%s.%s" % (m.name, qual))
                self._specfn[(c.qual if c else m.name, mn)] = fi
        return groups

    def run_specs(self, name, also=(), cone=2):
        """The contracts of a file, those of the functions they call (whichever property these belong to), and those of
        related functions: also = ((file, predicate on (rel, qual)), ...)."""
        groups = self.load_specs(name)
        n = 0
        for (rel, qual), alts in groups.items():
            n += self.check_against(rel, qual, alts)
        from .data import check_data, load
        check_data(self, {rel for rel, w in load().items() if w["owner"] == name[:3]})
        done = set(groups)
        for other, want in also:
            more = self.load_specs(other)
            for k, alts in more.items():
                if want(*k) and k not in done:
                    done.add(k)
                    n += self.check_against(*k, alts)
        if cone:
            table = {}
            for p in sorted(os.listdir(os.path.join(HERE, "specs"))):
                if p.endswith(".py"):
                    table.update({k: p for k in _spec.index(os.path.join(HERE, "specs", p))})
            for _ in range(cone):
                todo = sorted({k for k in self.called if k in table} - done)
                self.called = set()
                for k in todo:
                    done.add(k)
                    n += self.check_against(*k, self.load_specs(table[k])[k])
        return n

    def check_against(self, rel, qual, alts):
        rule = "value-graph"
        self.rules.setdefault(rule, "the gated value graph of the function (returned value, effects with their control conditions, loops as folds; "
                              "extracted helpers expanded) equals that of the reference contract")
        fi, cls = self.fn(rel[len(PKG):], qual)
        if fi is None:
            return 0
        best = None
        for alt in alts:
            opts = alt.opts
            try:
                with time_limit(100):
                    d = self._compare(fi, cls, alt, opts, rel)
            except TooBig:
                return self.undecided(qual, "decision tree too large")
            except RecursionError:
                return self.undecided(qual, "recursion limit in analysis")
            except OutOfTime:
                return self.undecided(qual, "time limit of the analysis")
            except Exception:
                return self.undecided(qual, "analysis failed: " + traceback.format_exc(limit=-3))
            if not d:
                best = []
                break
            if best is None or len(d) < len(best):
                best = d
        if not best:
            best = self._signature(fi, alts)
        ok = not best
        construct = "%s::%s" % (rel, qual)
        if len(self.samples) < 6:
            s = self.summary(fi, cls)
            self.samples.append("%s (%s): returns %s; %d effect(s)" % (qual, fi.where(), show(s.ret)[:200], len(s.all_events)))
        msg = ""
        where = fi.where()
        if not ok:
            msg = "; ".join("[%s] %s" % (w, t[:900]) for w, t, e in best)
            for w, t, e in best:
                if e is not None:
                    where = e.where()
                    break
        self.ob(ok, rule, construct, where, "%s does not implement its contract: %s" % (qual, msg))
        return 1

    def _signature(self, fi, alts):
        """Defaults and decorators of the function."""
        out = []
        a, b = fi.node.args, alts[0].node.args
        na = [x.arg for x in a.posonlyargs + a.args]
        nb = [x.arg for x in b.posonlyargs + b.args]
        def dflt(args, names):
            k = len(names) - len(args.defaults)
            return [None if i < k else args.defaults[i - k] for i in range(len(names))]
        da, db = dflt(a, na), dflt(b, nb)
        for i in range(len(nb)):
            x, y = (da[i] if i < len(da) else None), db[i]
            if (x is None) != (y is None) or x is not None and _dflt(x) != _dflt(y):
                out.append(("signature", "parameter %s has default %s; required %s" % (
                    nb[i], ast.unparse(x) if x is not None else "none", ast.unparse(y) if y is not None else "none"), None))
        for i in range(len(nb), len(na)):
            if da[i] is None:
                out.append(("signature", "additional required parameter %s" % na[i], None))
        ka = dict(zip([x.arg for x in a.kwonlyargs], a.kw_defaults))
        kb = dict(zip([x.arg for x in b.kwonlyargs], b.kw_defaults))
        for k, y in kb.items():
            x = ka.get(k)
            if k not in ka or (x is None) != (y is None) or x is not None and _dflt(x) != _dflt(y):
                out.append(("signature", "keyword parameter %s" % k, None))
        want = DECOS.get(fi.qual)
        if want is not None:
            have = decorator_list(fi)
            if sorted(have) != sorted(want):
                out.append(("decorator", "decorated by %s; required %s" % (have, want), None))
        return out

    def spec_fi(self, fi, alt):
        node = alt.node
        decs = [d for d in fi.node.decorator_list if isinstance(d, ast.Name) and d.id in ("staticmethod", "classmethod", "property")]
        node2 = ast.FunctionDef(name=node.name, args=node.args, body=node.body, decorator_list=decs, lineno=node.lineno, col_offset=0)
        return FuncInfo(node2, fi.module, fi.cls, "spec:" + fi.qual)

    def closed(self, f):
        """May a call to f be expanded: f has a real body and no override anywhere."""
        k = ("closed", f.qual)
        if k not in self._sum:
            body = [x for x in f.node.body if not (isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant))]
            ok = bool(body) and not (len(body) == 1 and isinstance(body[0], (ast.Raise, ast.Pass))) and not _generator(f.node)
            if ok and f.cls is not None:
                for c in self.prog.subclasses(f.cls):
                    if f.name in c.methods:
                        ok = False
                        break
            self._sum[k] = ok
        return self._sum[k]

    def _compare(self, fi, cls, alt, opts, rel):
        parts = tuple(opts.get("parts", ("ret", "store", "setitem", "delattr", "raise", "yield", "enter", "call")))
        ignore = tuple(opts.get("ignore", ()))
        inl = set(opts.get("inline", ()))
        order = opts.get("order", ())
        sfi = self.spec_fi(fi, alt)
        mod = fi.module

        def attempt(key, more, relaxed, quick, asked=None):
            """Differences with the given functions expanded on both sides; asked counts what each side calls."""
            sides = []
            for x, tag in ((fi, "lv"), (sfi, "slv")):
                cnt = {}

                def wanted(f):
                    cnt[f] = cnt.get(f, 0) + 1
                    return f.name in inl or more(f)

                sides.append(self.summary(x, cls, wanted, (tag, key, tuple(sorted(inl))), alt.imports, trace=bool(order), relaxed=relaxed))
                if asked is not None:
                    asked.append(cnt if cnt else self._asked.get((x.qual, x.node, key, relaxed), {}))
                    self._asked[(x.qual, x.node, key, relaxed)] = asked[-1]
            d = diff(sides[0], sides[1], parts, ignore, quick=quick)
            return d or order_diff(sides[0], sides[1], order, ignore)

        asked = []
        out = attempt(0, lambda f: False, False, False, asked)
        self.called |= {(f.module.rel, (f.cls.name + "." if f.cls else "") + f.name) for x in asked for f in x}
        if not out:
            return []
        # a public function that is merely no longer called has not been expanded in place
        dropped = all(f not in asked[0] and not f.name.startswith("_") for f in set(asked[0]) | set(asked[1])
                      if asked[0].get(f, 0) != asked[1].get(f, 0))
        # expand what only one side calls
        expand = set()
        big = False
        for _ in range(4):
            new = {f for f in set(asked[0]) | set(asked[1]) if asked[0].get(f, 0) != asked[1].get(f, 0)
                   and f is not fi and not f.name.startswith("__") and self.closed(f)} - expand
            if not new:
                break
            expand |= new
            key = tuple(sorted(f.qual for f in expand))
            asked = []
            try:
                with time_limit(40):
                    if not attempt(key, lambda f: f in expand, False, True, asked):
                        return []
            except (TooBig, OutOfTime, RecursionError):
                big = True
                break
        if not big:
            try:
                with time_limit(40):
                    if not attempt(tuple(sorted(f.qual for f in expand)), lambda f: f in expand, True, True):
                        return []
            except (TooBig, OutOfTime, RecursionError):
                big = bool(expand)

        # expand everything of the module
        def local(f):
            return f.module is mod and f is not fi and f.name.startswith("_") and not f.name.startswith("__") and self.closed(f)

        def whole(f):
            return f is not fi and f.module is mod and not f.name.startswith("__") and self.closed(f)

        try:
            with time_limit(30):
                for relaxed in (False, True):
                    for i, lv in ((1, local), (2, whole)):
                        try:
                            if not attempt(i, lv, relaxed, True):
                                return []
                        except TooBig:
                            pass
        except (OutOfTime, RecursionError):
            pass
        if big and not dropped:
            raise TooBig()
        return out


_sd = {}


def spec_data():
    """dotted name of a module constant -> expression of its contract"""
    if not _sd:
        from .data import load
        for rel, w in load().items():
            for n, src in w["names"].items():
                b = ast.parse(src).body
                if len(b) == 1 and isinstance(b[0], ast.Assign):
                    _sd[rel[:-3].replace("/", ".").removesuffix(".__init__") + "." + n] = b[0].value
    return _sd


def known_findings(prop):
    p = os.path.join(HERE, "known_findings.json")
    out = {}
    if os.path.exists(p):
        for f in json.load(open(p)):
            if f.get("status") == "open" and f["property"] == prop:
                out[(f["rule"], f["construct"])] = f
    return out


def run(prop, fn, tier, title=""):
    t0 = time.time()
    sys.setrecursionlimit(30000)
    ctx = Ctx(prop, tier)
    try:
        fn(ctx)
    except Exception:
        ctx.error("analysis crashed: " + traceback.format_exc(limit=-6))
    kf = known_findings(prop)
    seen = set()
    viol = []
    for v in ctx.violations:
        k = (v["rule"], v["construct"])
        if k in kf:
            seen.add(k)
        else:
            viol.append(v)
    for k in sorted(seen):
        print("KNOWN-FINDING: property=%s %s" % (prop, kf[k]["what"]))
    n = len(ctx.obligations)
    done = sum(1 for o in ctx.obligations if o[2])
    floor = json.load(open(os.path.join(HERE, "sa", "floors.json"))).get(prop, 1)
    if n < floor and not viol:
        ctx.error("only %d obligations found, at least %d were confirmed by hand" % (n, floor))
    if ctx.prog.broken:
        ctx.error("unparsable modules: %s" % ctx.prog.broken)
    ev = {
        "property": prop,
        "tier": tier,
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": "other",
        "coverage": {
            "explanation": "Static analysis of /repo's current source (%d modules parsed, %d classes resolved): %d obligations on %d functions; rules: %s"
                           % (len(ctx.prog.modules), len(ctx.prog.classes), n, len(ctx.functions), " | ".join("%s: %s" % r for r in sorted(ctx.rules.items()))),
            "obligations": n,
            "discharged": done,
            "undecided": ctx.undec,
            "functions_analysed": len(ctx.functions),
            "constructs": sorted({o[1] for o in ctx.obligations})[:400],
            "samples": ctx.samples,
            "known_findings": ["%s %s" % k for k in sorted(seen)],
        },
        "assumptions": ["Python semantics of the analysed constructs; calls outside the repository are uninterpreted",
                        "distinct access paths in one function do not alias"],
        "wall_s": round(time.time() - t0, 3),
        "violations": len(viol),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    rp = os.path.join(HERE, "evidence", prop + ".report.txt")
    if viol:
        with open(rp, "w") as f:
            for v in viol:
                f.write("%(where)s: rule %(rule)s, %(construct)s\n    %(message)s\n" % v)
        for v in viol:
            print("%(where)s: [%(rule)s] %(construct)s: %(message)s" % v)
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        for e in ctx.errors:
            print("note: " + e)
        return 1
    if os.path.exists(rp):
        os.remove(rp)
    for e in ctx.undec:
        print("UNDECIDED property=%s %s" % (prop, e))
    for e in ctx.notes:
        print("note: " + e)
    if ctx.errors:
        for e in ctx.errors:
            print("ANALYSIS-ERROR property=%s %s" % (prop, e))
        return 2
    print("OK property=%s: %d/%d obligations discharged on %d functions in %.1fs" % (prop, done, n, len(ctx.functions), time.time() - t0))
    return 0
