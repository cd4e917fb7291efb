"""Rules other than value-graph equality."""
import ast
import json
import os
from .terms import *
from .check import HERE, PKG, decorator_list


def norm(s):
    return "".join(s.split())


def hints_of(f):
    """annotation strings as the casting machinery reads them"""
    a = f.node.args
    out = {}
    for x in a.posonlyargs + a.args + a.kwonlyargs + ([a.vararg] if a.vararg else []) + ([a.kwarg] if a.kwarg else []):
        if x.annotation is not None:
            out[x.arg] = norm(ast.unparse(x.annotation))
    if f.node.returns is not None:
        out["return"] = norm(ast.unparse(f.node.returns))
    return {k: v for k, v in out.items() if "D.T_" in v}


def interface():
    return json.load(open(os.path.join(HERE, "specs", "interface.json")))


def nothing(ctx, name):
    from .engine import _procedure
    fs = ctx.prog.method_index.get(name) or ()
    return bool(fs) and all(_procedure(f.node) for f in fs)


def check_delegation(ctx, want):
    """want(rel) selects the table rows."""
    ctx.rule("delegation", "a public method returns exactly what its underscore counterpart returns for the same arguments, passes every argument through in "
                           "order, has no other effect, and is marked autocastable when its signature depends on the domain types")
    for rel, qual, auto in interface()["delegation"]:
        if not want(rel):
            continue
        fi, cls = ctx.fn(rel, qual)
        if fi is None:
            continue
        n = qual.split(".")[-1]
        s = ctx.summary(fi, cls, lambda f: False, "deleg")
        ps = fi.params()[1:] if fi.kind() in ("method", "class") else fi.params()
        want_pos = [T("p", i) for i in range(len(ps))]
        from .canon import canon
        r = canon(s.ret)
        hook = T("a", T("self"), "_" + n)
        if r is NONE and nothing(ctx, "_" + n):
            # the hook is a procedure: calling it without `return` is the same thing
            ev = [e for e in s.all_events if e.kind == "call" and e.term.args[0] is hook and e.guard is TRUE and not e.loops]
            if len(ev) == 1:
                r = canon(ev[0].term)
        ok = r.op == "call" and r.args[0] is hook
        msg = "returns %s" % show(r)
        if ok:
            got = list(r.args[1]) + [v for k, v in sorted(r.args[2], key=lambda x: ps.index(x[0]) if x[0] in ps else 99) if k != "**"]
            kwnames = [k for k, v in r.args[2] if k != "**"]
            # keyword arguments must carry their own parameter
            tgt = ctx.prog.lookup(cls, "_" + n)
            tps = tgt.params()[1:] if tgt is not None else ps
            for k, v in r.args[2]:
                if k == "**":
                    continue
                if k not in tps or v is not T("p", tps.index(k)):
                    ok = False
                    msg = "passes %s as %s" % (show(v), k)
            if ok and sorted(map(show, got)) != sorted(map(show, want_pos)):
                ok = False
                msg = "passes (%s) instead of all its parameters" % ", ".join(map(show, got))
            if ok and list(r.args[1]) != want_pos[:len(r.args[1])]:
                ok = False
                msg = "passes its parameters in another order"
            if ok and fi.node.args.kwarg is not None and not any(k == "**" for k, v in r.args[2]):
                ok = False
                msg = "drops the additional keyword arguments"
            if ok:
                ev = [e for e in s.all_events if e.kind in ("store", "setitem", "call", "raise") and canon(e.term) is not r]
                from .compare import ignored
                ev = [e for e in ev if not (e.kind == "call" and ignored(e.term))]
                if ev:
                    ok = False
                    msg = "also performs %s" % show(ev[0].term)
        ctx.ob(ok, "delegation", "%s::%s" % (rel, qual), fi.where(), "%s must return self._%s(%s): %s" % (qual, n, ", ".join(ps), msg))
        if auto:
            ctx.ob("skdecide.core.autocastable" in decorator_list(fi), "autocastable", "%s::%s" % (rel, qual), fi.where(),
                   "%s is not marked autocastable: solvers and domains of different characteristics exchange uncast objects" % qual)


def check_hints(ctx):
    ctx.rule("hints", "the domain-type annotations of every autocastable method (which drive conversion at run time) state the documented structure")
    for key, want in sorted(interface()["hints"].items()):
        rel, qual = key.split("::")
        fi, cls = ctx.fn(rel, qual)
        if fi is None:
            continue
        got = hints_of(fi)
        # parameter names may change, positions may not
        a = fi.node.args
        order = [x.arg for x in a.args]
        bad = []
        wl = list(want.items())
        gl = list(got.items())
        for k, v in wl:
            if got.get(k) != v and not (k != "return" and len(wl) == len(gl) and gl[wl.index((k, v))][1] == v):
                bad.append("%s: %s (required %s)" % (k, got.get(k), v))
        for k, v in gl:
            if k not in want and len(wl) != len(gl):
                bad.append("%s: %s (not in the contract)" % (k, v))
        ctx.ob(not bad, "hints", key, fi.where(), "conversion of %s is driven by %s" % (qual, "; ".join(bad)))


def check_structure(ctx, names, attrs=True):
    ctx.rule("structure", "class hierarchy and domain type attributes of the characteristics and domain templates")
    st = interface()["structure"]
    for key, w in sorted(st.items()):
        if not names(key):
            continue
        rel, cn = key.split("::")
        c = ctx.prog.cls(PKG + rel, cn)
        if c is None:
            ctx.ob(False, "structure", key, PKG + rel, "class %s is not defined" % cn)
            continue
        have = [x.name for x in ctx.prog.mro(c)[1:]]
        miss = [b for b in w["bases"] if b not in have]
        extra = [b for b in have if b not in w["bases"] and (PKG + rel + "::" + b)[9:] in st or b not in w["bases"] and any(k.endswith("::" + b) for k in st)]
        ctx.ob(not miss and not extra, "structure", key, c.where(), "%s lost %s, gained %s" % (cn, miss or "nothing", extra or "nothing"))
        if not miss and not extra:
            # relative resolution order of classes that define a common name
            bad = []
            mro = ctx.prog.mro(c)[1:]
            pos = {x.name: i for i, x in enumerate(mro)}
            wp = [b for b in w["bases"]]
            by = {x.name: x for x in mro}
            for i in range(len(wp)):
                for j in range(i + 1, len(wp)):
                    a, b = by[wp[i]], by[wp[j]]
                    if pos[a.name] > pos[b.name]:
                        common = (set(a.methods) | set(a.attrs)) & (set(b.methods) | set(b.attrs)) - {"__init__"}
                        if common:
                            bad.append("%s now overrides %s for %s" % (b.name, a.name, sorted(common)[:3]))
            ctx.ob(not bad, "structure-order", key, c.where(), "%s: %s" % (cn, "; ".join(bad)))
        if attrs:
            for a, v in sorted(w["T"].items()):
                n = c.attrs.get(a)
                got = norm(ast.unparse(n)) if n is not None else None
                ctx.ob(got == v, "structure", key + "." + a, c.where(), "%s.%s is %s (required %s)" % (cn, a, got, v))
            for a in c.attrs:
                if a.startswith("T_") and a not in w["T"]:
                    ctx.ob(False, "structure", key + "." + a, c.where(), "%s.%s is redefined" % (cn, a))


CACHES = ("functools.lru_cache", "functools.cache", "functools.cached_property")


def keeps(d):
    """A decorator that remembers the value of at least 128 objects."""
    import ast
    if not d.startswith(CACHES):
        return False
    try:
        n = ast.parse(d, mode="eval").body
    except SyntaxError:
        return True
    if isinstance(n, ast.Call) and ast.unparse(n.func) == CACHES[0]:
        size = n.args[:1] + [k.value for k in n.keywords if k.arg == "maxsize"]
        for x in size:
            if isinstance(x, ast.Constant) and isinstance(x.value, int) and (x.value is False or x.value < 128):
                return False
    return True


def check_caching(ctx):
    from .canon import canon
    ctx.rule("cached", "a structural getter computes its value once per instance by calling its underscore-suffixed counterpart, which subclasses implement")
    tab = interface()["cached"]
    for rel, qual in tab:
        fi, cls = ctx.fn(rel, qual)
        if fi is None:
            continue
        ds = decorator_list(fi)
        n = qual.split(".")[-1]
        ctx.ob(any(keeps(d) for d in ds), "cached", "%s::%s" % (rel, qual), fi.where(), "%s is recomputed at every call (decorators %s)" % (qual, ds))
        s = ctx.summary(fi, cls, lambda f: False, "cache")
        inner = "_" + n.lstrip("_") + "_"
        r = canon(s.ret)
        ok = r.op == "call" and r.args[0] is T("a", T("self"), inner) and not r.args[1] and not r.args[2]
        ctx.ob(ok, "cached-delegation", "%s::%s" % (rel, qual), fi.where(), "%s must return self.%s(): returns %s" % (qual, inner, show(r)))
    ctx.rule("no-other-cache", "nothing that depends on its arguments or on the current state is memoised per instance in the domain and solver interfaces")
    names = {tuple(x) for x in tab}
    for m in ctx.prog.modules.values():
        if not m.rel.startswith("skdecide/builders/domain") and not m.rel.startswith("skdecide/builders/solver") and m.rel not in (
                "skdecide/core.py", "skdecide/domains.py", "skdecide/solvers.py"):
            continue
        for k in m.classes.values():
            for n, f in k.methods.items():
                ds = decorator_list(f)
                if any(d.startswith(CACHES) for d in ds):
                    ok = (m.rel[9:], k.name + "." + n) in names
                    ctx.ob(ok, "no-other-cache", "%s::%s.%s" % (m.rel[9:], k.name, n), f.where(), "%s.%s is memoised" % (k.name, n))
