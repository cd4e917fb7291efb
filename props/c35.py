"""MiniZinc models: each equals its reviewed reference, is there, and is fed every parameter it declares."""
import ast
import glob
import os

from sa import mzn

DO = "skdecide/builders/discrete_optimization/"
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# model file -> the module that fills it in (None: a library file included by others)
USED = {
    "coloring/coloring": "coloring/solvers/coloring_cp_solvers.py", "coloring/coloring_clique": "coloring/solvers/coloring_cp_solvers.py",
    "coloring/coloring_for_lns": "coloring/solvers/coloring_cp_solvers.py", "facility/facility_int": "facility/solvers/facility_cp_solvers.py",
    "facility/facility_int_lns": "facility/solvers/facility_cp_solvers.py", "knapsack/knapsack_global": "knapsack/solvers/cp_solvers.py",
    "knapsack/knapsack_mzn": "knapsack/solvers/cp_solvers.py", "rcpsp/mrcpsp_mode_satisfy": "rcpsp/solver/cp_solvers.py",
    "rcpsp/rcpsp_multi_mode_mzn": "rcpsp/solver/cp_solvers.py", "rcpsp/rcpsp_multi_mode_mzn_calendar": "rcpsp/solver/cp_solvers.py",
    "rcpsp/rcpsp_single_mode_mzn": "rcpsp/solver/cp_solvers.py",
    "rcpsp_multiskill/ms_rcpsp_multi_mode_mzn_calendar": "rcpsp_multiskill/solvers/cp_solvers.py",
    "tsp/tsp_float": "tsp/solver/tsp_cp_solver.py", "tsp/tsp_int": "tsp/solver/tsp_cp_solver.py", "vrp/vrp": "vrp/solver/vrp_cp.py",
}


def strings(m):
    return {x.value for x in ast.walk(m.tree) if isinstance(x, ast.Constant) and isinstance(x.value, str)}


def label(x):
    return "%s %s" % (x[0], " ".join(mzn.show(y) if isinstance(y, tuple) else str(y) for y in x[1:] if y is not None))


def check(ctx):
    ctx.rule("model", "the items of a model (parameters with their types, decision variables with their domains, constraints, goal) equal those of the "
                      "reviewed reference in normal form: definitions, helper predicates and lets expanded, bound names and order immaterial, guards, "
                      "implications, comparisons and linear arithmetic normalised; search annotations, output and comments ignored")
    for ref in sorted(glob.glob(os.path.join(HERE, "specs", "mzn", "*.mzn"))):
        prob, name = os.path.basename(ref)[:-4].split("__")
        rel = DO + "%s/minizinc/%s.mzn" % (prob, name)
        path = os.path.join(ctx.repo, rel)
        if not os.path.exists(path):
            ctx.ob(False, "model-file", rel, rel, "the model file %s does not exist" % rel)
            continue
        want = mzn.load(ref)
        try:
            have = mzn.load(path, want.vars)
        except (mzn.Bad, RecursionError, IndexError) as e:
            ctx.undecided(rel, "the model cannot be read: %s" % e)
            continue
        library = not any(x[0] in ("constraint", "solve", "variable") for x in want.items)
        if library:
            f, g = want.funs.get(name), have.funs.get(name)
            ctx.ob(f == g, "model", rel, rel, "predicate %s does not implement its reference: %s; required %s" % (
                name, mzn.show(g[1])[:700] if g else "not defined", mzn.show(f[1])[:700]))
        else:
            for x in sorted(want.items | have.items, key=repr):
                ok = x in want.items and x in have.items
                key = "%s: %s" % (rel, label(x)[:160])
                msg = "" if ok else "the model lacks the %s" % label(x)[:700] if x in want.items else "the model has, beyond its reference, the %s" % label(x)[:700]
                ctx.ob(ok, "model", key, rel, msg)
        local = {x for x in want.includes if os.path.exists(os.path.join(os.path.dirname(path), x))}
        for x in sorted(local - have.includes):
            ctx.ob(False, "model", "%s: include %s" % (rel, x), rel, "the model no longer includes %s" % x)
        ctx.rule("model-parameters", "the solver module names every parameter the model leaves open")
        mod = USED.get("%s/%s" % (prob, name))
        m = ctx.prog.module(DO + mod) if mod else None
        if m is not None:
            names = strings(m)
            for p in sorted(have.par):
                ctx.ob(p in names, "model-parameters", "%s: %s" % (rel, p), DO + mod, "%s leaves the parameter %s open, which %s never mentions" % (rel, p, mod))
    ctx.rule("model-file", "every model file a solver module names exists in its problem's folder")
    for m in ctx.prog.modules.values():
        if not m.rel.startswith(DO):
            continue
        prob = m.rel[len(DO):].split("/")[0]
        for s in sorted(x for x in strings(m) if x.endswith(".mzn") and " " not in x):
            base = os.path.basename(s)
            ok = os.path.exists(os.path.join(ctx.repo, DO, prob, "minizinc", base))
            ctx.ob(ok, "model-file", "%s: %s" % (m.rel, base), m.rel, "%s names the model %s, which does not exist in %s%s/minizinc" % (m.rel, base, DO, prob))
    mods = {"skdecide/" + x if not x.startswith("skdecide/") else x for x in (DO + y for y in set(USED.values()))}
    want = lambda rel, q: rel in mods and q.split(".")[-1] in ("__init__", "init_model", "cp_solving")
    ctx.run_specs("c35.py", also=[(s, want) for s in ("c29.py", "c30.py", "c31.py", "c34.py")])
    from sa.data import check_data
    check_data(ctx, mods)
